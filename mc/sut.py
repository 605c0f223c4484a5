"""The system under test, through its public interface."""
import contextlib
import io
import os

from . import env, h5spec

_VALIDATORS = {}
_N = 0
BUNDLED = ("v2018.5", "v3.3", "a4fd52d")


def preload(sets=BUNDLED):
    """make the validators in the parent process, so that forked workers share them"""
    import punx.validate
    import punx.validations.application_definition, punx.validations.attribute, punx.validations.default_plot  # noqa
    for name in sets:
        get_validator(name)


def get_validator(name):
    import punx.validate
    if name not in _VALIDATORS:
        _VALIDATORS[name] = punx.validate.Data_File_Validator(name)
    return _VALIDATORS[name]


@contextlib.contextmanager
def written(files, fname=None, **options):
    """the abstract files as real ones in a scratch directory; yields the path of the main file"""
    global _N
    _N += 1
    folder = env.workdir()
    path = os.path.join(folder, fname or "f%d.h5" % (_N % 1000))
    made = [path]
    try:
        for name, root in files.others.items():
            p = os.path.join(folder, name)
            made.append(p)
            h5spec.write(root, p)
        h5spec.write(files.main, path, **options)
        yield path
    finally:
        for p in made:
            with contextlib.suppress(OSError):
                os.unlink(p)


def rows(validator):
    return [(f.h5_address, f.test_name, str(f.status), f.comment) for f in validator.validations]


class Result:
    pass


def validate(path, definitions="v2018.5", validator=None, report=False):
    """validate a file; the findings, catalogue, and (on request) the printed report"""
    v = validator or get_validator(definitions)
    r = Result()
    try:
        v.validate(path)
        r.findings = rows(v)
        r.addresses = [a for a in v.addresses if a is not None]
        r.classpaths = {k: [i.h5_address for i in items] for k, items in v.classpaths.items()}
        r.score = v.finding_score()
        r.summary = {str(k): c for k, c in v.finding_summary().items()}
        if report:
            raw = io.BytesIO()     # a strict UTF-8 terminal
            buf = io.TextIOWrapper(raw, encoding="utf-8", newline="\n", write_through=True)
            with contextlib.redirect_stdout(buf):
                v.print_report()
            buf.flush()
            r.report = raw.getvalue().decode("utf-8")
    finally:
        v.close()
    return r


def by_test(findings):
    """(address, test) -> list of (status, comment)"""
    out = {}
    for a, t, s, c in findings:
        out.setdefault((a, t), []).append((s, c))
    return out
