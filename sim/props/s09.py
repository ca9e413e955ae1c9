"""S09"""
import clean

ID = "S09"
clean.make(globals(), ['genfun'],
           'random polytope x option set x adversarial draws; the rational function written is evaluated in the field of 2^61-1 elements and compared with the sum over the enumerated lattice points; non-trivial: at least one random draw or one child process')
