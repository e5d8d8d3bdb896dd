"""Offline stand-in: JSON is a subset of HJSON.  dumps emits JSON; loads accepts
JSON plus '#'/'//' line comments and missing/trailing commas between lines."""
import json
import re


class HjsonDecodeError(ValueError):
    pass


def dumps(obj, **kwa):
    return json.dumps(obj, indent=2, ensure_ascii=False)


def loads(s, **kwa):
    try:
        return json.loads(s)
    except ValueError:
        pass
    t = re.sub(r'^\s*(#|//).*$', '', s, flags=re.M)
    t = re.sub(r',(\s*[}\]])', r'\1', t)
    try:
        return json.loads(t)
    except ValueError as ex:
        raise HjsonDecodeError(str(ex)) from ex
