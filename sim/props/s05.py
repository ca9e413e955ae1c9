"""S05"""
import clean

ID = "S05"
clean.make(globals(), ['taylor', 'series', 'ehrpoly', 'taylor', 'series', 'ehrpoly', 'taylor', 'series', 'ehrpoly', 'interp'],
           'random polytope x input format x option set x adversarial answers to random(), asked for its Ehrhart polynomial, series or Taylor terms; compared with exact counts of dilates; non-trivial: at least one random draw or one child process')
