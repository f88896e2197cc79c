"""Build klang's C extensions from the working tree, install the seams and
import klang from the working tree."""
import hashlib
import importlib.machinery
import importlib.util
import logging
import os
import shutil
import subprocess
import sys
import tempfile
import warnings

REPO = os.environ.get('KLANGSIM_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXTENSIONS = ('_envelope', '_filters')


def source_key():
    h = hashlib.sha256(sys.version.encode())
    audio = os.path.join(REPO, 'klang', 'audio')
    names = sorted(os.path.join(audio, n) for n in os.listdir(audio) if n.endswith(('.c', '.h')))
    for path in names + [os.path.join(REPO, 'setup.py')]:
        with open(path, 'rb') as f:
            h.update(path.encode() + b'\0' + f.read())
    return h.hexdigest()[:20]


def _find(root, name):
    for base, _, files in os.walk(root):
        for f in files:
            if f.startswith(name + '.') and f.endswith('.so'):
                return os.path.join(base, f)
    return None


def build_extensions():
    """Compile the C extensions of the working tree into a cache outside of it.
    Returns directory holding them."""
    root = os.environ.get('KLANGSIM_BUILD', os.path.join(VERIF, '.build'))
    out = os.path.join(root, 'ext-' + source_key())
    if all(_find(out, n) for n in EXTENSIONS):
        return out
    os.makedirs(root, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=root)
    try:
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1')
        res = subprocess.run(
            [sys.executable, 'setup.py', 'build_ext', '--force',
             '--build-lib', os.path.join(tmp, 'lib'), '--build-temp', os.path.join(tmp, 'obj')],
            cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if res.returncode or not all(_find(tmp, n) for n in EXTENSIONS):
            raise RuntimeError('building the C extensions failed:\n' + res.stdout.decode(errors='replace')[-3000:])
        final = os.path.join(tmp, 'final')
        os.makedirs(final)
        for n in EXTENSIONS:
            shutil.copy2(_find(os.path.join(tmp, 'lib'), n), final)
        try:
            os.rename(final, out)
        except OSError:
            if not all(_find(out, n) for n in EXTENSIONS):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


class ExtensionFinder:

    """Import klang's C extensions from the build directory."""

    def __init__(self, directory):
        self.directory = directory

    def find_spec(self, fullname, path=None, target=None):
        for n in EXTENSIONS:
            if fullname == 'klang.audio.' + n:
                location = _find(self.directory, n)
                loader = importlib.machinery.ExtensionFileLoader(fullname, location)
                return importlib.util.spec_from_file_location(fullname, location, loader=loader)
        return None


def boot():
    """Make klang importable under the simulator. Idempotent."""
    if 'klang' in sys.modules:
        return
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    directory = build_extensions()
    sys.meta_path.insert(0, ExtensionFinder(directory))
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != REPO]
    sys.path.insert(0, REPO)
    from klangsim import seams
    # Everything with own background behaviour is imported before the seams
    import importlib
    import numpy, scipy.signal, scipy.io.wavfile, scipy.interpolate, samplerate  # noqa
    import pyaudio, rtmidi, pynput.keyboard, multiprocessing, random, wave  # noqa
    seams.install_before_import()
    importlib.import_module('klang')
    import klang
    if not os.path.abspath(klang.__file__).startswith(REPO + os.sep):
        raise RuntimeError('klang imported from %s, not from %s' % (klang.__file__, REPO))
    for name in ('klang.audio', 'klang.klang', 'klang.network', 'klang.keyboard', 'klang.midi',
                 'klang.sequencer', 'klang.arpeggiator', 'klang.note_effects', 'klang.composite',
                 'klang.execution', 'klang.progress_bar', 'klang.ring_buffer',
                 'klang.audio._envelope', 'klang.audio._filters'):
        importlib.import_module(name)
    logging.disable(logging.CRITICAL)
    for handler in list(logging.getLogger().handlers):
        logging.getLogger().removeHandler(handler)
    seams.patch_klang_namespaces()
