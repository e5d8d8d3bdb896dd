VALID_METHODS = {2: ["get", "post", "put", "patch", "delete", "head", "options"],
                 3: ["get", "post", "put", "patch", "delete", "head", "options", "trace"]}


class _Ver:
    def __init__(self, s):
        self.major, self.minor, self.patch = (list(map(int, s.split("."))) + [0, 0])[:3]


class APISpec:
    def __init__(self, title, version, openapi_version, plugins=(), **options):
        self.title, self.version = title, version
        self.openapi_version = _Ver(openapi_version)
        self.options = options
        self._paths = {}

    def path(self, path=None, *, operations=None, **kwa):
        self._paths[path] = dict(operations or {})
        return self

    def to_dict(self):
        d = dict(paths=self._paths, info=dict(title=self.title, version=self.version),
                 openapi="{}.{}.{}".format(self.openapi_version.major, self.openapi_version.minor, self.openapi_version.patch))
        d.update(self.options)
        return d

    def to_yaml(self):
        import yaml
        return yaml.dump(self.to_dict())
