"""S08"""
import clean

ID = "S08"
clean.make(globals(), ['optimize'],
           'random polytope x cost vector x direction x search method (digging or binary search) x adversarial draws; compared with the optimum over the enumerated lattice points; non-trivial: at least one random draw or one child process')
