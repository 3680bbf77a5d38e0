"""Locales of the system, compiled into a scratch directory.

Only a few locales are installed, so the local forms of the others would never
be seen.  `localedef` makes them from their sources without installing them;
LOCPATH shows them to one process.
"""
import os
import re
import shutil
import subprocess
import tempfile

from engine import elsewhere

SOURCES = '/usr/share/i18n/locales'
# One locale for each kind of date form (order, delimiter, width of the year
# and of the day, names, a form that is not one of three fields) and of time
# form (12 or 24 hours, delimiter, text before it).
KINDS = ('de_DE', 'fr_FR', 'es_ES', 'nl_NL', 'sv_SE', 'hu_HU', 'fi_FI',
         'bg_BG', 'as_IN', 'km_KH', 'te_IN', 'ar_AE', 'fa_IR', 'ja_JP',
         'zh_HK', 'cs_CZ', 'bo_CN', 'en_DK', 'ru_RU', 'mfe_MU')


FIELDS = {'d': 'day', 'e': 'day', 'm': 'month', 'b': 'month', 'B': 'month',
          'y': 'year', 'Y': 'year'}


def date_form(d_fmt):
    """(delimiter, three directives): the locale's form when it is three plain
    fields, else the form of the C locale."""
    m = re.fullmatch(r'%([a-zA-Z])(.)%([a-zA-Z])(.)%([a-zA-Z])', d_fmt)
    if m:
        g = m.group(1, 3, 5)
        if sorted(FIELDS.get(x, '') for x in g) == ['day', 'month', 'year']:
            return m.group(2), g
    return '/', ('m', 'd', 'y')


def names():
    """Every locale with a source."""
    if not shutil.which('localedef') or not os.path.isdir(SOURCES):
        return []
    return sorted(n for n in os.listdir(SOURCES)
                  if re.fullmatch(r'[a-z]{2,3}_[A-Z]{2}(@\w+)?', n))


def compile_time(name, path):
    """Make the locale's forms of dates and times, and nothing else."""
    with open(os.path.join(SOURCES, name), encoding='utf-8') as f:
        text = f.read()
    head = [x for x in text.splitlines()
            if x.startswith(('comment_char', 'escape_char'))]
    body = re.search(r'^LC_TIME\s*\n.*?^END LC_TIME', text, re.S | re.M)
    if body is None:
        return False
    src = path + '.src'
    with open(src, 'w', encoding='utf-8') as f:
        f.write('\n'.join([*head, body.group(0), 'LC_CTYPE', 'copy "POSIX"',
                           'END LC_CTYPE', '']))
    subprocess.run(['localedef', '-c', '-i', src, '-f', 'UTF-8', path],
                   capture_output=True)
    return os.path.exists(os.path.join(path, 'LC_TIME'))


def ask(name, *args):
    """The answer of envrun.py in a process with the locale, None if the
    locale cannot be made."""
    d = tempfile.mkdtemp(prefix='verif-locale-')
    try:
        full = name.replace('@', '.UTF-8@') if '@' in name else name + '.UTF-8'
        if not compile_time(name, os.path.join(d, full)):
            return None
        return elsewhere(list(args), LOCPATH=d, LC_ALL='', LC_TIME=full,
                         LC_CTYPE='C.UTF-8')
    finally:
        shutil.rmtree(d)


def some(tier):
    return [(n,) for n in names() if tier == 'thorough' or n in KINDS]
