"""A stand-in for pybel whose molecules can be pickled, which those of this environment's Open Babel cannot."""
import zlib


class Molecule:
    def __init__(self, smiles):
        self.pyboxmon_smiles = smiles

    @property
    def molwt(self):
        return 60.0 + 300.0 * (zlib.crc32(("mw" + self.pyboxmon_smiles).encode()) / 2.0 ** 32)

    def write(self, fmt="can"):
        return self.pyboxmon_smiles + "\t\n"


def readstring(fmt, text):
    if fmt != "smi" or not isinstance(text, str) or not text:
        raise IOError("cannot read %r as %r" % (text, fmt))
    return Molecule(text)
