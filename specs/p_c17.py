from necroassembler.cpu.intel8086 import AssemblerIntel8086
from . import i8086 as S
from .encprop import EncoderProperty

P = EncoderProperty('8086', AssemblerIntel8086, S, contracts={'necroassembler.cpu.intel8086._get_modrm_mod': S.c_modrm_mod})
units, concrete = P.units, P.concrete
ASSUMPTIONS, LEVEL = P.ASSUMPTIONS, 'proof'
