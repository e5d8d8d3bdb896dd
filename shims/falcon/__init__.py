"""Offline stand-in for the small part of falcon (WSGI) keri uses."""
import io
import json
import re
import sys
from http import HTTPStatus
from urllib.parse import parse_qsl, unquote
from . import responders

for _s in HTTPStatus:
    globals()[f"HTTP_{_s.value}"] = f"{_s.value} {_s.phrase}"
    globals()[f"HTTP_{_s.name}"] = f"{_s.value} {_s.phrase}"

MEDIA_JSON = "application/json"
DEFAULT_MEDIA_TYPE = MEDIA_JSON


class HTTPError(Exception):
    def __init__(self, status, *, title=None, description=None, headers=None, **kwa):
        if isinstance(status, int):
            status = globals()[f"HTTP_{status}"]
        self.status = status
        self.title = title or status
        self.description = description
        self.headers = headers
        super().__init__(status)

    def to_dict(self):
        d = dict(title=self.title)
        if self.description:
            d["description"] = self.description
        return d


def _mk(code):
    class E(HTTPError):
        def __init__(self, *, title=None, description=None, headers=None, **kwa):
            super().__init__(globals()[f"HTTP_{code}"], title=title,
                             description=description, headers=headers)
    return E


HTTPBadRequest = _mk(400)
HTTPUnauthorized = _mk(401)
HTTPForbidden = _mk(403)
HTTPNotFound = _mk(404)
HTTPMethodNotAllowed = _mk(405)
HTTPMissingParam = _mk(400)
HTTPInvalidParam = _mk(400)
HTTPInternalServerError = _mk(500)
MediaNotFoundError = _mk(400)
MediaMalformedError = _mk(400)


class HTTPStatusExc(Exception):
    pass


class _Bounded:
    def __init__(self, data):
        self._f = io.BytesIO(data)

    def read(self, *a):
        return self._f.read(*a)

    def __iter__(self):
        return iter(self._f)


class Request:
    def __init__(self, env, options=None):
        self.env = env
        self.method = env["REQUEST_METHOD"]
        self.path = env.get("PATH_INFO", "/") or "/"
        if len(self.path) > 1 and self.path.endswith("/") :
            self.path = self.path[:-1]
        self.query_string = env.get("QUERY_STRING", "")
        self.params = {}
        for k, v in parse_qsl(self.query_string, keep_blank_values=True):
            if v == "":
                continue
            if k in self.params:
                p = self.params[k]
                self.params[k] = (p if isinstance(p, list) else [p]) + [v]
            else:
                self.params[k] = v
        self.headers = {}
        for k, v in env.items():
            if k.startswith("HTTP_"):
                self.headers[k[5:].replace("_", "-")] = v
            elif k in ("CONTENT_TYPE", "CONTENT_LENGTH"):
                self.headers[k.replace("_", "-")] = v
        n = env.get("CONTENT_LENGTH")
        n = int(n) if n not in (None, "") else 0
        raw = env["wsgi.input"].read(n) if n else b""
        self.bounded_stream = _Bounded(raw)
        self.stream = self.bounded_stream
        self.content_type = env.get("CONTENT_TYPE")
        self.content_length = n or None
        self.context = type("Ctx", (), {})()
        self.host = env.get("HTTP_HOST", "falconframework.org")
        self._media = None

    def get_header(self, name, required=False, default=None):
        v = self.headers.get(name.upper())
        if v is None:
            if required:
                raise HTTPBadRequest(title="Missing header")
            return default
        return v

    def get_param(self, name, required=False, store=None, default=None):
        if name in self.params:
            v = self.params[name]
            return v[-1] if isinstance(v, list) else v
        if required:
            raise HTTPMissingParam(title="Missing parameter")
        return default

    def get_param_as_int(self, name, required=False, min_value=None, max_value=None, store=None, default=None):
        v = self.get_param(name, required=required)
        if v is None:
            return default
        try:
            v = int(v)
        except ValueError:
            raise HTTPInvalidParam(title="Invalid parameter",
                                   description="The value must be an integer.")
        return v

    def get_param_as_bool(self, name, required=False, default=None, **kwa):
        v = self.get_param(name, required=required)
        if v is None:
            return default
        return v.lower() in ("true", "t", "yes", "y", "1", "on")

    def get_media(self, default_when_empty=None):
        if self._media is None:
            raw = self.bounded_stream.read()
            if not raw:
                if default_when_empty is not None:
                    return default_when_empty
                raise MediaNotFoundError(title="Empty body")
            try:
                self._media = json.loads(raw)
            except ValueError:
                raise MediaMalformedError(title="Invalid JSON")
        return self._media

    media = property(get_media)


class Response:
    def __init__(self, options=None):
        self.status = "200 OK"
        self._headers = {}
        self.text = None
        self.data = None
        self.stream = None
        self.media = None
        self.complete = False
        self.context = type("Ctx", (), {})()

    body = property(lambda s: s.text, lambda s, v: setattr(s, "text", v))

    @property
    def content_type(self):
        return self._headers.get("content-type")

    @content_type.setter
    def content_type(self, v):
        self._headers["content-type"] = v

    def set_header(self, name, value):
        self._headers[name.lower()] = str(value)

    def get_header(self, name, default=None):
        return self._headers.get(name.lower(), default)

    append_header = set_header

    def set_headers(self, headers):
        for k, v in (headers.items() if hasattr(headers, "items") else headers):
            self.set_header(k, v)

    @property
    def headers(self):
        return dict(self._headers)


class CORSMiddleware:
    def __init__(self, *pa, **kwa):
        pass


def _compile(tpl):
    tpl = tpl.rstrip("/") or "/"
    rx = "".join(f"(?P<{p[1:-1].split(':')[0]}>[^/]+)" if p.startswith("{") else re.escape(p)
                 for p in re.split(r"(\{[^}]+\})", tpl))
    return re.compile("^" + rx + "$"), tpl.count("{")


class _Node:
    def __init__(self, tpl, resource, method_map):
        self.uri_template, self.resource, self.method_map = tpl, resource, method_map
        self.children = []


class App:
    def __init__(self, media_type=MEDIA_JSON, request_type=Request, response_type=Response,
                 middleware=None, router=None, cors_enable=False, **kwa):
        self._routes = []
        self._sinks = []
        self._mw = list(middleware) if isinstance(middleware, (list, tuple)) else ([middleware] if middleware else [])
        self._cors = cors_enable
        self._router = type("R", (), {})()
        self._router._roots = []
        self.req_options = type("O", (), {})()
        self.resp_options = type("O", (), {})()

    def add_middleware(self, mw):
        self._mw += mw if isinstance(mw, (list, tuple)) else [mw]

    def add_route(self, tpl, resource, *, suffix=None, **kwa):
        mm = {}
        sfx = f"_{suffix}" if suffix else ""
        for m in ("GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS"):
            f = getattr(resource, f"on_{m.lower()}{sfx}", None)
            if f is not None:
                mm[m] = f
        if not mm:
            raise ValueError("No responders found for resource")
        rx, n = _compile(tpl)
        self._routes.append((n, rx, tpl, resource, mm))
        self._router._roots.append(_Node(tpl, resource, mm))

    def add_sink(self, sink, prefix="/"):
        rx = prefix if hasattr(prefix, "match") else re.compile(prefix)
        self._sinks.insert(0, (rx, sink))

    def add_static_route(self, *pa, **kwa):
        pass

    def _dispatch(self, req, rep):
        for mw in self._mw:
            if hasattr(mw, "process_request"):
                mw.process_request(req, rep)
        for n, rx, tpl, resource, mm in sorted(self._routes, key=lambda r: r[0]):
            m = rx.match(req.path)
            if m:
                f = mm.get(req.method)
                if f is None:
                    if req.method == "OPTIONS":
                        rep.set_header("allow", ", ".join(mm))
                        return
                    raise HTTPMethodNotAllowed()
                f(req, rep, **{k: v for k, v in m.groupdict().items()})
                return
        for rx, sink in self._sinks:
            m = rx.match(req.path)
            if m:
                sink(req, rep, **m.groupdict())
                return
        raise HTTPNotFound()

    def __call__(self, env, start_response):
        env = dict(env)
        env["PATH_INFO"] = unquote(env.get("PATH_INFO", "/"))
        rep = Response()
        req = None
        try:
            req = Request(env)
            self._dispatch(req, rep)
        except HTTPError as ex:
            rep.status = ex.status
            rep.text = None
            rep.data = json.dumps(ex.to_dict()).encode()
            rep.stream = None
            rep.content_type = MEDIA_JSON
            for k, v in (ex.headers or {}).items():
                rep.set_header(k, v)
        for mw in reversed(self._mw):
            if hasattr(mw, "process_response"):
                mw.process_response(req, rep, None, True)
        if self._cors:
            rep._headers.setdefault("access-control-allow-origin", "*")
        rep._headers.setdefault("content-type", MEDIA_JSON)
        status = rep.status
        if isinstance(status, int):
            status = globals()[f"HTTP_{status}"]
        if rep.text is not None:
            body = rep.text.encode() if isinstance(rep.text, str) else bytes(rep.text)
            chunks = [body]
        elif rep.data is not None:
            chunks = [bytes(rep.data)]
        elif rep.media is not None:
            chunks = [json.dumps(rep.media).encode()]
        elif rep.stream is not None:
            s = rep.stream
            chunks = [s.read()] if hasattr(s, "read") else s
        else:
            chunks = []
        if isinstance(chunks, list):
            rep._headers["content-length"] = str(sum(map(len, chunks)))
        start_response(status, list(rep._headers.items()))
        return chunks


from . import testing  # noqa
from . import asgi  # noqa
