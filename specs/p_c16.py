from necroassembler.cpu.mc68000 import AssemblerMC68000
from . import mc68000 as S
from .encprop import EncoderProperty

P = EncoderProperty('MC68000', AssemblerMC68000, S, contracts={'necroassembler.cpu.mc68000.AssemblerMC68000._mode': S.c_mode})
units, concrete = P.units, P.concrete
ASSUMPTIONS, LEVEL = P.ASSUMPTIONS, 'proof'
