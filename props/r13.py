"""R13: everything saved to NumPy files is loaded back unchanged."""
from props import roundtrip

LABEL_FILES = ['roundtrip']
ASSUMPTIONS = list(roundtrip.ASSUMPTIONS)
CASES = roundtrip.build('npz')
