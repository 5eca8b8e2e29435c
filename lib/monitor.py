"""Monitor object handed to every scenario: oracles, event counters, coverage."""
import hashlib
import json
import math

import numpy as np


class Violation(Exception):
    def __init__(self, key, msg, data=None):
        Exception.__init__(self, '%s: %s' % (key, msg))
        self.key = key
        self.msg = msg
        self.data = data


class Skip(Exception):
    """The drawn input is outside the property's domain."""


def short(x, n=400):
    try:
        s = repr(x)
    except Exception as e:     # repr of broken objects must not mask a verdict
        s = '<unreprable %s>' % type(e).__name__
    return s if len(s) <= n else s[:n] + '...'


class Monitor(object):
    def __init__(self, scenario):
        self.scenario = scenario
        self.oracles = 0          # oracle evaluations
        self.events = {}          # observed-event counters
        self.sigs = set()         # distinct non-trivial observed states
        self.samples = []
        self.notes = []
        self.trace = []           # recent operations of this case

    # --- bookkeeping
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def op(self, *what):
        """Record one operation of the case's history (witness)."""
        self.trace.append(short(what, 160))
        if len(self.trace) > 200:
            del self.trace[:100]

    def state(self, *sig):
        h = hashlib.md5(repr((self.scenario,) + sig).encode()).hexdigest()[:16]
        self.sigs.add(h)

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append({k: short(v, 200) for k, v in kw.items()})

    # --- oracles
    def fail(self, key, msg, **data):
        raise Violation(key, msg, {k: short(v) for k, v in data.items()})

    def check(self, cond, key, msg='', **data):
        self.oracles += 1
        if not cond:
            self.fail(key, msg, **data)

    def equal(self, a, b, key, msg='', **data):
        self.oracles += 1
        if not (a == b):
            self.fail(key, '%s: %s != %s' % (msg, short(a), short(b)), **data)

    def close(self, a, b, key, msg='', rtol=1e-9, atol=1e-12, **data):
        """Elementwise |a-b| <= atol + rtol*|b|, same shape; NaN never passes, infinities only if equal."""
        self.oracles += 1
        a = np.asarray(a, float)
        b = np.asarray(b, float)
        if a.shape != b.shape:
            self.fail(key, '%s: shape %s vs %s' % (msg, a.shape, b.shape), **data)
        if a.size == 0:
            return
        with np.errstate(all='ignore'):
            tol = atol + rtol * np.abs(b)
            ok = ((np.abs(a - b) <= tol) & np.isfinite(b) & np.isfinite(a)) | ((a == b) & ~np.isnan(a))
        if not np.all(ok):
            with np.errstate(all='ignore'):
                d = np.where(ok, 0., np.abs(a - b) / np.maximum(tol, 1e-300))
            d = np.where(np.isnan(d), np.inf, d)
            i = np.unravel_index(np.argmax(d), d.shape) if d.ndim else ()
            self.fail(key, '%s: got %r, expected %r at %s (|diff| %r, tol %r; %d of %d wrong)'
                      % (msg, float(a[i]), float(b[i]), tuple(int(j) for j in i),
                         abs(float(a[i]) - float(b[i])),
                         float(np.broadcast_to(tol, a.shape)[i]),
                         int((~ok).sum()), ok.size), **data)

    def scaled_close(self, a, b, key, msg='', tol=1e-6, atol=1e-300, scale=None, **data):
        """max|a-b| <= tol * scale  (scale defaults to max|b|)."""
        b = np.asarray(b, float)
        if scale is None:
            scale = float(np.max(np.abs(b))) if b.size else 0.
        self.close(a, b, key, msg, rtol=0., atol=atol + tol * scale, **data)

    def raises(self, exc, func, key, msg=''):
        self.oracles += 1
        try:
            func()
        except exc:
            return
        except Exception as e:
            self.fail(key, '%s: raised %s, expected %s' % (msg, type(e).__name__, exc))
        self.fail(key, '%s: did not raise' % msg)
