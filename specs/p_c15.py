from necroassembler.cpu.thumb import AssemblerThumb
from . import thumb as S
from .encprop import EncoderProperty

P = EncoderProperty('Thumb', AssemblerThumb, S, contracts={'necroassembler.cpu.thumb.AssemblerThumb._rlist': S.c_rlist})
units, concrete = P.units, P.concrete
ASSUMPTIONS, LEVEL = P.ASSUMPTIONS, 'proof'
