"""R14: everything saved to HDF5 files is loaded back unchanged."""
from props import roundtrip

LABEL_FILES = ['roundtrip']
ASSUMPTIONS = list(roundtrip.ASSUMPTIONS)
CASES = roundtrip.build('hdf5')
