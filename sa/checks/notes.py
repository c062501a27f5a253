"""Texts for MANIFEST.json: assurance notes and reasons for not claiming a property."""
NOTES = {
    '*': 'Decided statically for every input the analysed entry points accept: the abstract interpretation joins all branches, so an obligation discharged '
         'holds on every path of the model. Trusted: the summaries of library calls in sa/models.py and the engine itself; dynamic features it does not '
         'understand become opaque values, which leave an obligation undischarged rather than discharged.',
}
NA = {
    'C40': 'A numerical statement: it needs bounds on floating point and iterative inversion error in OpenCV, GDAL and numpy, which no sound static argument over this source can give. The model that each direction implements is claimed as C28.',
    'C41': 'Quantifies over real terrain, imagery and calibration accuracy, which are not in the source; static analysis cannot bound them.',
    'C42': 'A convergence property of scipy/OpenCV least squares at run time; nothing in the source bounds the residual.',
    'C43': 'A numerical identity over pixel statistics and resampling kernels; it cannot be bounded from the source.',
    'C44': 'Depends on the monotonicity of arbitrary camera rays against arbitrary terrain and datum shifts at run time; a heuristic in the code, not statically boundable.',
    'C45': 'Bit equality of the accumulated statistics depends on floating point summation order at run time; the race freedom part is claimed as C04.',
    'C46': 'Peak memory depends on scheduling, GDAL caches and allocator behaviour, which static analysis of this source cannot bound.',
}
