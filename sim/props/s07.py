"""S07"""
import clean

ID = "S07"
clean.make(globals(), ['topknap'],
           'random list of 2-5 positive integers x requested coefficients x options x adversarial draws; every coefficient function compared, on sampled residue classes, with the interpolated counting quasi-polynomial; non-trivial: at least one random draw or file operation')
