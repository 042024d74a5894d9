"""Brahmic NFC."""

import brahmic
import common
import data
import real
import rrv
import spec
from run import Task

FILES = ['brahmic/nfc.py', 'utils/rule.py', 'brahmic/util.py', 'brahmic/sigma.py', 'brahmic/char_util.py', 'utils/char.py', 'utils/rewrite.py', 'utils/file.py', 'brahmic/__init__.py', 'utils/far.py']
TRUSTED = common.TRUSTED
ASSUMPTIONS = common.ASSUME


def one(script):
  def fn(out):
    rules = data.rules(*data.brahmic(script, 'nfc'))
    sp = brahmic.nfc(script)
    chars = common.named([common.BLOCK[script]]) | data.script_chars(script)
    for utf8 in (False, True):
      n = 'nfc[%s,%s]' % (script, 'utf8' if utf8 else 'byte')
      g = real.grammar('brahmic:nfc' + '_utf8' * utf8, script.upper(), utf8)
      if utf8:
        out.equals(n, g, sp, spec.over(data.sigma(script)))
      else:
        out.equals(n, g, sp, rrv.ustar(), only=False)
      common.canonical(out, n, g, chars)
      common.composed(out, n, g, common.named([common.BLOCK[script]]))
      common.idempotent(out, n, g)
    del rules
  return fn


def every(utf8):
  def fn(out):
    rules = [r for s in data.SCRIPTS for r in data.rules(*data.brahmic(s, 'nfc'))]
    sp = spec.cascade(spec.layers(rules))
    if utf8:
      n, g = 'nfc[all,utf8]', real.grammar('brahmic:nfc_utf8', 'BRAHMIC', True)
      out.equals(n, g, sp, spec.over(set().union(*map(data.sigma, data.SCRIPTS))))
    else:
      real.api('//nisaba/scripts/brahmic:py')
      from nisaba.scripts import brahmic as api
      n, g = 'Nfc()', real.wrapped('Nfc()', api.Nfc())
      out.equals(n, g, sp, rrv.ustar(), only=False)
    chars = set().union(*map(data.script_chars, data.SCRIPTS)) | common.named(common.BLOCK.values())
    common.canonical(out, n, g, chars)
    common.composed(out, n, g, common.named(common.BLOCK.values()))
    common.idempotent(out, n, g)
  return fn


def tasks(tier):
  return ([Task('nfc[%s]' % s, one(s)) for s in data.SCRIPTS] +
          [Task('nfc[all,byte]', every(False), first=True), Task('nfc[all,utf8]', every(True), first=True)])
