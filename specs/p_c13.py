from necroassembler.cpu.z80 import AssemblerZ80
from . import z80 as S
from .encprop import EncoderProperty

P = EncoderProperty('Z80', AssemblerZ80, S)
units, concrete = P.units, P.concrete
ASSUMPTIONS, LEVEL = P.ASSUMPTIONS, 'proof'
