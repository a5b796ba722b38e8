"""Reference models for the time-correlation code: direct definitions, no ring
buffers, no incremental state."""
import math

import numpy as np


def lags(levels, bufs):
    out = [list(range(bufs))]
    for lv in range(1, levels):
        out.append([(bufs // 2 + j) * 2 ** lv for j in range(bufs // 2)])
    return out


def flat_lags(levels, bufs):
    return [x for lv in lags(levels, bufs) for x in lv]


def downsample(frames):
    """frames: list of 1-D float arrays; pairs averaged, odd one waits"""
    return [(frames[2 * k] + frames[2 * k + 1]) / 2.0 for k in range(len(frames) // 2)]


def roi_lists(labels):
    lab = np.asarray(labels).ravel()
    ids = sorted(set(int(v) for v in lab if v > 0))
    return ids, [[i for i, v in enumerate(lab) if int(v) == r] for r in ids]


def one_time(frames, levels, bufs, labels):
    """(g2, lag_steps) after all of ``frames``; a frame with a NaN inside a
    region contributes to no lag."""
    ids, rois = roi_lists(labels)
    inroi = sorted(i for r in rois for i in r)
    fl = [np.asarray(f, dtype=float).ravel() for f in frames]
    rows = []
    for lv in range(levels):
        bad = [bool(np.isnan(f[inroi]).any()) for f in fl]
        shifts = range(bufs) if lv == 0 else range(bufs // 2, bufs)
        for s in shifts:
            pairs = [(k - s, k) for k in range(s, len(fl)) if not (bad[k - s] or bad[k])]
            row = []
            for r in rois:
                if not pairs:
                    row.append(None)
                    continue
                G = math.fsum(math.fsum(fl[a][p] * fl[b][p] for p in r) / len(r) for a, b in pairs) / len(pairs)
                P = math.fsum(math.fsum(fl[a][p] for p in r) / len(r) for a, b in pairs) / len(pairs)
                F = math.fsum(math.fsum(fl[b][p] for p in r) / len(r) for a, b in pairs) / len(pairs)
                row.append((G, P, F))
            rows.append(row)
        fl = downsample(fl)
    out = []
    for row in rows:
        if any(v is None or v[1] == 0 for v in row):
            break
        out.append([v[0] / (v[1] * v[2]) if v[2] else float("nan") for v in row])
    g2 = np.array(out, dtype=float).reshape(len(out), len(rois))
    return g2, np.array(flat_lags(levels, bufs)[: len(out)], dtype=float)


def two_time(frames, levels, bufs, labels, num_frames):
    """symmetric matrix per region; entries no level computes stay 0"""
    ids, rois = roi_lists(labels)
    fl = [np.asarray(f, dtype=float).ravel() for f in frames]
    g = np.zeros((len(rois), num_frames, num_frames))
    for lv in range(levels):
        w = 2 ** lv
        shifts = range(bufs) if lv == 0 else range(bufs // 2, bufs)
        for s in shifts:
            for k in range(s, len(fl)):
                a, b = fl[k - s], fl[k]
                for q, r in enumerate(rois):
                    num = math.fsum(a[p] * b[p] for p in r)
                    den = math.fsum(a[p] for p in r) * math.fsum(b[p] for p in r)
                    if den:
                        v = num / den * len(r)
                    else:
                        v = float("nan")
                    for t in range(w):
                        g[q, k * w + t, (k - s) * w + t] = v
                        g[q, (k - s) * w + t, k * w + t] = v
        fl = downsample(fl)
    return g


def _matrix(labels):
    ids, rois = roi_lists(labels)
    R = np.zeros((np.asarray(labels).size, len(rois)))
    for q, r in enumerate(rois):
        R[r, q] = 1.0 / len(r)
    return R


def one_time_large(frames, levels, bufs, labels):
    """the same definition as ``one_time`` for frames without dark regions, by matrix products"""
    R = _matrix(labels)
    F = np.array([np.asarray(f, dtype=float).ravel() for f in frames])
    F[:, R.sum(axis=1) == 0] = 0.0
    out = []
    for lv in range(levels):
        for s in range(bufs) if lv == 0 else range(bufs // 2, bufs):
            if s >= len(F):
                return np.array(out).reshape(len(out), R.shape[1]), np.array(flat_lags(levels, bufs)[: len(out)], dtype=float)
            ok = ~np.isnan(F).any(axis=1)
            ok = ok[: len(F) - s] & ok[s:]
            if not ok.any():
                return np.array(out).reshape(len(out), R.shape[1]), np.array(flat_lags(levels, bufs)[: len(out)], dtype=float)
            a, b = F[: len(F) - s][ok], F[s:][ok]
            out.append(((a * b) @ R).mean(axis=0) / ((a @ R).mean(axis=0) * (b @ R).mean(axis=0)))
        F = (F[0: len(F) // 2 * 2: 2] + F[1: len(F) // 2 * 2: 2]) / 2.0
    return np.array(out), np.array(flat_lags(levels, bufs), dtype=float)


def two_time_large(frames, levels, bufs, labels, num_frames):
    R = _matrix(labels)
    F = np.array([np.asarray(f, dtype=float).ravel() for f in frames])
    F[:, R.sum(axis=1) == 0] = 0.0
    g = np.zeros((R.shape[1], num_frames, num_frames))
    for lv in range(levels):
        w = 2 ** lv
        for s in range(bufs) if lv == 0 else range(bufs // 2, bufs):
            if s >= len(F):
                break
            a, b = F[: len(F) - s], F[s:]
            v = ((a * b) @ R) / ((a @ R) * (b @ R))
            for k in range(len(a)):
                for t in range(w):
                    g[:, (k + s) * w + t, k * w + t] = v[k]
                    g[:, k * w + t, (k + s) * w + t] = v[k]
        F = (F[0: len(F) // 2 * 2: 2] + F[1: len(F) // 2 * 2: 2]) / 2.0
    return g


def large_case(shape, nlab, n, scale, kind="int"):
    """(labels, frames) of any size: nlab regions scattered over the image, counts or reals of the given scale"""
    npix = shape[0] * shape[1]
    k = np.arange(npix, dtype=np.int64)
    lab = ((k * 7919 + 13) % (nlab + 1)).reshape(shape)
    for i in range(1, nlab + 1):  # every region is there
        lab.flat[(i * (npix // (nlab + 1))) % npix] = i
    frames = []
    for f in range(n):
        v = ((k + 3) * (f + 5) * 7 + f * f * 3 + k * k % 101) % 997 + 1
        frames.append((v * scale if kind == "int" else v * scale + 1.0 / (3 + k % 7)).reshape(shape).astype(float))
    return lab, frames
