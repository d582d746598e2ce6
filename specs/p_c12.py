from necroassembler.cpu.lr35902 import AssemblerLR35902
from . import lr35902 as S
from .encprop import EncoderProperty

P = EncoderProperty('LR35902', AssemblerLR35902, S)
units, concrete = P.units, P.concrete
ASSUMPTIONS, LEVEL = P.ASSUMPTIONS, 'proof'
