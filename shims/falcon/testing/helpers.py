import io


def create_environ(path="/", query_string="", method="GET", headers=None, body=b"", content_type=None, **kwa):
    if isinstance(body, str):
        body = body.encode()
    env = dict(REQUEST_METHOD=method, PATH_INFO=path, QUERY_STRING=query_string,
               SERVER_PROTOCOL="HTTP/1.1", SERVER_NAME="falconframework.org", SERVER_PORT="80")
    env["wsgi.input"] = io.BytesIO(body)
    env["wsgi.url_scheme"] = "http"
    env["HTTP_HOST"] = "falconframework.org"
    if body:
        env["CONTENT_LENGTH"] = str(len(body))
    if content_type:
        env["CONTENT_TYPE"] = content_type
    for k, v in (headers.items() if hasattr(headers, "items") else (headers or [])):
        n = k.upper().replace("-", "_")
        if n in ("CONTENT_TYPE", "CONTENT_LENGTH"):
            env[n] = v.strip()
        else:
            env["HTTP_" + n] = v.strip()
    return env


def create_req(options=None, **kwa):
    import falcon
    return falcon.Request(create_environ(**kwa))
