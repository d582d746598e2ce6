from necroassembler.cpu.powerpc import AssemblerPowerPC
from . import powerpc as S
from .encprop import EncoderProperty

P = EncoderProperty('ppc', AssemblerPowerPC, S)
units, concrete = P.units, P.concrete
ASSUMPTIONS, LEVEL = P.ASSUMPTIONS, 'proof'
