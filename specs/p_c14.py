from necroassembler.cpu.mips32 import AssemblerMIPS32
from . import mips32 as S
from .encprop import EncoderProperty

P = EncoderProperty('MIPS32', AssemblerMIPS32, S)
units, concrete = P.units, P.concrete
ASSUMPTIONS, LEVEL = P.ASSUMPTIONS, 'proof'
