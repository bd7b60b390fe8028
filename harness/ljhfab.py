"""Independent writers of raw (LJH), state and OFF files for the checks: they share no code with mass."""
import struct
import numpy as np


def header(version="2.2.0", nsamp=20, npre=8, timebase="1.0e-05", client="DASTARD version 0.2.4", rows=None, cols=None, row=None, col=None,
           source=None, subdiv=None, suboff=None, tsoff="1000000000.0", chan=1, extra=()):
    """npre is what is written in the header."""
    h = ["#LJH Memorial File Format", f"Save File Format Version: {version}", f"Software Version: {client}"]
    if source is not None:
        h.append(f"Data source: {source}")
    if rows is not None:
        h.append(f"Number of rows: {rows}")
    if cols is not None:
        h.append(f"Number of columns: {cols}")
    if row is not None:
        h.append(f"Row number (from 0-{(rows or 1) - 1} inclusive): {row}")
    if col is not None:
        h.append(f"Column number (from 0-{(cols or 1) - 1} inclusive): {col}")
    if subdiv is not None:
        h.append(f"Subframe divisions: {subdiv}")
    if suboff is not None:
        h.append(f"Subframe offset: {suboff}")
    h += [f"Channel: {chan}", "Digitized Word Size In Bytes: 2", f"Presamples: {npre}", f"Total Samples: {nsamp}"]
    if tsoff is not None:
        h.append(f"Timestamp offset (s): {tsoff}")
    h += [f"Timebase: {timebase}"] + list(extra) + ["#End of Header", ""]
    return "\r\n".join(h).encode()


def rec22(samples, sub, usec):
    return struct.pack("<qq", sub, usec) + np.asarray(samples, dtype="<u2").tobytes()


def rec21(samples, us4, ms):
    return struct.pack("<BBI", us4, 0, ms) + np.asarray(samples, dtype="<u2").tobytes()


def write22(path, data, subs, usecs, **kw):
    kw.setdefault("nsamp", len(data[0]) if len(data) else 20)
    with open(path, "wb") as f:
        f.write(header(version="2.2.0", **kw))
        for d, s, u in zip(data, subs, usecs):
            f.write(rec22(d, int(s), int(u)))
    return path


def simple_pulses(n, nsamp=20, npre=8, seed=0, base=1000, height=400):
    """n small pulse records, all different."""
    rng = np.random.default_rng(seed)
    t = np.arange(nsamp) - npre
    out = []
    for i in range(n):
        shape = np.where(t >= 0, np.exp(-t / 6.0) - np.exp(-(t + 1) / 1.0) * .5, 0)
        out.append(np.round(base + rng.integers(0, 9, nsamp) + (height + 37 * i) * shape).astype(np.uint16))
    return out


def make_group_files(dirname, chans, n, nsamp=20, npre=8, base="run", noise=False, seed=0, counts=None, **kw):
    pulse, noi = [], []
    for c in chans:
        k = n if counts is None else counts[c]
        d = simple_pulses(k, nsamp, npre, seed=seed + c) if k else []
        subs = 1000 * (1 + np.arange(k)) + c
        usec = 1_600_000_000_000_000 + 10_000 * np.arange(k) + c
        pulse.append(write22(f"{dirname}/{base}_chan{c}.ljh", d, subs, usec, nsamp=nsamp, npre=npre, chan=c, **kw))
        if noise:
            rng = np.random.default_rng(500 + seed + c)
            d = [np.round(1000 + 5 * rng.standard_normal(nsamp)).astype(np.uint16) for _ in range(max(n, 24))]
            subs = 1000 * (1 + np.arange(len(d))) + c
            usec = 1_600_000_000_000_000 + 10_000 * np.arange(len(d)) + c
            noi.append(write22(f"{dirname}/{base}noise_chan{c}.ljh", d, subs, usec, nsamp=nsamp, npre=npre, chan=c, **kw))
    return pulse, noi


# ---- OFF files --------------------------------------------------------------------------------
def off_dtype(version, nbasis):
    d = [("recordSamples", "<i4"), ("recordPreSamples", "<i4"), ("framecount", "<i8"), ("unixnano", "<i8"), ("pretriggerMean", "<f4")]
    if version == "0.3.0":
        d.append(("pretriggerDelta", "<f4"))
    return np.dtype(d + [("residualStdDev", "<f4"), ("coefs", "<f4", (nbasis,))])


def off_header(version, nbasis, projectors, basis, frame=1e-5, readout=None, extra=None, base64=None):
    import base64 as b64
    import json
    P, B = dict(Rows=projectors.shape[0], Cols=projectors.shape[1]), dict(Rows=basis.shape[0], Cols=basis.shape[1])
    inline = (version == "0.1.0") if base64 is None else base64
    if inline:
        P["RowMajorFloat64ValuesBase64"] = b64.b64encode(np.ascontiguousarray(projectors, dtype="<f8").tobytes()).decode()
        B["RowMajorFloat64ValuesBase64"] = b64.b64encode(np.ascontiguousarray(basis, dtype="<f8").tobytes()).decode()
    h = dict(FileFormat="OFF", FileFormatVersion=version, NumberOfBases=nbasis, FramePeriodSeconds=frame,
             ModelInfo=dict(Projectors=P, Basis=B, Description="a model"),
             ReadoutInfo=readout or dict(ColumnNum=0, RowNum=2, NumberOfColumns=1, NumberOfRows=8), CreationInfo=dict(SourceName="test"))
    h.update(extra or {})
    out = (json.dumps(h, indent=4, ensure_ascii=False) + "\n").encode()
    if not inline:
        out += np.ascontiguousarray(projectors, dtype="<f8").tobytes() + np.ascontiguousarray(basis, dtype="<f8").tobytes()
    return out


def off_records(version, nbasis, rows):
    """rows: dicts with any of the fields."""
    a = np.zeros(len(rows), dtype=off_dtype(version, nbasis))
    for i, r in enumerate(rows):
        for k, v in r.items():
            if k in a.dtype.names:
                a[i][k] = v
    return a.tobytes()


def off_model(nbasis, nsamp, seed=0):
    rng = np.random.default_rng(seed)
    return rng.standard_normal((nbasis, nsamp)), rng.standard_normal((nsamp, nbasis))


def state_file(path, marks):
    with open(path, "w", encoding="utf-8") as f:
        f.write("# unix time in nanoseconds, state label\n")
        for t, lab in marks:
            f.write(f"{t}, {lab}\n")
    return path
