"""NFC of abjads and alphabets."""

import abjad
import common
import data
import real
import rrv
import spec
from run import Task

FILES = ['abjad_alphabet/nfc.py', 'utils/rule.py', 'abjad_alphabet/util.py', 'utils/char.py', 'utils/rewrite.py',
         'utils/file.py']
TRUSTED = common.TRUSTED
ASSUMPTIONS = common.ASSUME


def one(utf8):
  def fn(out):
    g = real.grammar('abjad_alphabet:nfc' + '_utf8' * utf8, 'ARAB', utf8)
    n = 'nfc[ARAB,%s]' % ('utf8' if utf8 else 'byte')
    out.equals(n, g, abjad.nfc(), spec.over(abjad.sigma()))
    arab = common.named(['ARABIC']) | abjad.sigma()
    common.canonical(out, n, g, arab)
    common.composed(out, n, g, {c for a, b in data.rules(abjad.PKG, 'nfc') for c in a + b} & common.named(['ARABIC']))
  return fn


def tasks(tier):
  return [Task('nfc[%d]' % u, one(u)) for u in (False, True)]
