"""Imports curvepy from the repository's current working tree.

The dependencies are imported first, so that their compiled files are used,
then curvepy itself is compiled from source: no stale .pyc can stand in for it.
"""
import os
import sys
import warnings

warnings.filterwarnings('ignore')
sys.dont_write_bytecode = True
REPO = os.environ.get('CURVEPY_REPO', '/repo')

import numpy  # noqa
import arrow  # noqa
import intervalpy  # noqa
import pyduration  # noqa

sys.pycache_prefix = '/nonexistent-pycache'
sys.path.insert(0, REPO)
import curvepy  # noqa
from curvepy import *  # noqa
from curvepy.curve import MIN_STEP  # noqa
from curvepy.extension.sin import SinExtension  # noqa
from intervalpy import Interval  # noqa

assert os.path.realpath(curvepy.__file__).startswith(os.path.realpath(REPO) + os.sep), curvepy.__file__
