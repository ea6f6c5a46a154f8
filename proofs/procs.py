"""Subprocesses of the provers, which can be stopped together once the search has found a failing input."""
import os, signal, subprocess, threading

_live, _lock, _stopped = set(), threading.Lock(), False


class Stopped(Exception):
    pass


def run(cmd, cwd, env=None, timeout=None):
    with _lock:
        if _stopped:
            raise Stopped()
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                             start_new_session=True)
        _live.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        out += "\n(stopped after %s s)" % timeout
    with _lock:
        _live.discard(p)
        if _stopped:
            raise Stopped()
    return out


def stop_all():
    global _stopped
    with _lock:
        _stopped = True
        for p in _live:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass


def run2(cmd, cwd=None, env=None, timeout=None):
    """As run, with standard output and error apart: -> (returncode, out, err)"""
    with _lock:
        if _stopped:
            raise Stopped()
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
        _live.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        err += "\n(stopped after %s s)" % timeout
    with _lock:
        _live.discard(p)
        if _stopped:
            raise Stopped()
    return p.returncode, out, err
