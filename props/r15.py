"""R15: everything saved to MATLAB files is loaded back unchanged."""
from props import roundtrip

LABEL_FILES = ['roundtrip']
ASSUMPTIONS = list(roundtrip.ASSUMPTIONS)
CASES = roundtrip.build('mat')
