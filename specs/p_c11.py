from necroassembler.cpu.mos6502 import AssemblerMOS6502
from . import mos6502 as S
from .encprop import EncoderProperty

P = EncoderProperty('6502', AssemblerMOS6502, S)
units, concrete = P.units, P.concrete
ASSUMPTIONS, LEVEL = P.ASSUMPTIONS, 'proof'
