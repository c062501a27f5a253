"""property id -> (rule function, level, technique)."""
from . import c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c24, c25, c26, c27, c28, c29, c30, c31, c32, c33
VF = 'interprocedural value-flow / effect analysis over gated-SSA terms of the source'
CHECKS = {
    'C01': (c01.check, 'other', VF + ': guard reachability of every file-writing effect'),
    'C02': (c02.check, 'other', VF + ': order of refusals and write effects'),
    'C03': (c03.check, 'other', VF + ': must-wait / must-write dataflow over submitted tasks, exception-flow analysis'),
    'C04': (c04.check, 'other', VF + ': lockset analysis, thread-escape / alias analysis, resource life-time order'),
    'C05': (c05.check, 'other', VF + ': typestate (open/closed) of every opened file along normal and exceptional exits'),
    'C06': (c06.check, 'other', VF + ': alias analysis of every store and in-place operation'),
    'C07': (c07.check, 'other', VF + ': abstract interpretation of the array operations at one pixel without valid source'),
    'C08': (c08.check, 'other', VF + ': value flow from each declared option to the API arguments'),
    'C09': (c09.check, 'other', VF + ': equality of the value written to a file and the value read back from it'),
    'C10': (c10.check, 'other', VF + ': axis, CRS and order of coordinates tracked through algebraic normal forms; interval analysis of the automatic CRS'),
    'C11': (c11.check, 'other', VF + ': reachability of the normal exit of camera operations with propagated absence of parameters'),
    'C12': (c12.check, 'other', VF + ': equality of the value graphs after a change and of a new object'),
    'C13': (c13.check, 'other', VF + ': dependence of values on the distortion coefficients and on the undistorted intrinsic matrix'),
    'C14': (c14.check, 'other', VF + ': equality of the value graphs of cameras made in different ways, polynomial normal form of the distortion models'),
    'C15': (c15.check, 'other', VF + ': loop-carried dependence analysis of per-image values, write effects on shared state'),
    'C16': (c16.check, 'other', VF + ': interprocedural exception-effect summaries, checked against the handlers of each command'),
    'C17': (c17.check, 'other', 'syntax-tree query with import and alias resolution over every module of the package'),
    'C18': (c18.check, 'other', VF + ': folding of path conditions at the boundaries of the index range'),
    'C19': (c19.check, 'other', VF + ': abstract interpretation at one pixel, taint analysis of unselected pixels, normal form of the accumulation of the statistics'),
    'C20': (c20.check, 'other', VF + ': constant propagation of every combination of the finite option domains through the value graph'),
    'C21': (c21.check, 'other', VF + ': normal forms of the angles and rotations in an algebra of rational and trigonometric functions'),
    'C22': (c22.check, 'other', VF + ': offset of pixel coordinates from the pixel centres in algebraic normal form'),
    'C23': (c23.check, 'other', VF + ': abstract interpretation of the readers on systematically malformed contents, with exception flow'),
    'C24': (c24.check, 'other', VF + ': linear normal form of the tile windows and their loops'),
    'C25': (c25.check, 'other', VF + ': abstract interpretation over data type, value range and integrality'),
    'C26': (c26.check, 'other', VF + ': affine transforms and array offsets tracked as matrices over rational functions'),
    'C27': (c27.check, 'other', VF + ': relational comparison of the effects of each operation for the two forms of its options; definite type errors on default values'),
    'C28': (c28.check, 'other', VF + ': normal forms of the projections in an algebra of rational functions, compared with the documented models'),
    'C29': (c29.check, 'other', VF + ': normal form of the refined coefficients in an algebra of rational functions'),
    'C31': (c31.check, 'other', VF + ': heights in an algebra of rational functions, CRS transforms of heights being unknown linear functions'),
    'C32': (c32.check, 'other', VF + ': linear forms of window and slice limits with signed rounding errors'),
    'C33': (c33.check, 'other', VF + ': rational normal form of an output pixel over arrays of known, small shape'),
    'C30': (c30.check, 'other', VF + ': normal forms of the rotations and their angles in an algebra of rational and trigonometric functions'),
}
