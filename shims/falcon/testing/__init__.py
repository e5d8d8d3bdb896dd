import json as _json
from . import helpers
from .helpers import create_environ, create_req


class Result:
    def __init__(self, status, headers, content):
        self.status = status
        self.status_code = int(status.split(" ")[0])
        self.headers = {k.lower(): v for k, v in headers}
        self.content = content

    @property
    def text(self):
        return self.content.decode("utf-8")

    @property
    def json(self):
        return _json.loads(self.text)


class TestClient:
    __test__ = False

    def __init__(self, app, headers=None):
        self.app = app

    def simulate_request(self, method="GET", path="/", query_string="", headers=None, body=b"",
                         json=None, params=None, content_type=None, **kwa):
        from urllib.parse import urlencode
        if json is not None:
            body = _json.dumps(json)
            content_type = content_type or "application/json"
        if params:
            query_string = urlencode(params, doseq=True)
        if "?" in path:
            path, query_string = path.split("?", 1)
        env = create_environ(path=path, query_string=query_string, method=method, headers=headers,
                             body=body, content_type=content_type)
        got = {}

        def start(status, hdrs, exc=None):
            got["s"], got["h"] = status, hdrs
        out = b"".join(bytes(c) for c in self.app(env, start))
        return Result(got["s"], got["h"], out)

    def simulate_get(self, path="/", **kwa):
        return self.simulate_request("GET", path, **kwa)

    def simulate_post(self, path="/", **kwa):
        return self.simulate_request("POST", path, **kwa)

    def simulate_put(self, path="/", **kwa):
        return self.simulate_request("PUT", path, **kwa)

    def simulate_delete(self, path="/", **kwa):
        return self.simulate_request("DELETE", path, **kwa)

    def simulate_options(self, path="/", **kwa):
        return self.simulate_request("OPTIONS", path, **kwa)

    def simulate_head(self, path="/", **kwa):
        return self.simulate_request("HEAD", path, **kwa)
