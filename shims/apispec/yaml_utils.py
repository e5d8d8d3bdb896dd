def load_yaml_from_docstring(doc):
    import yaml
    if not doc or "---" not in doc:
        return {}
    import inspect
    body = inspect.cleandoc(doc).split("---", 1)[1]
    try:
        return yaml.safe_load(body) or {}
    except yaml.YAMLError:
        return {}


def load_operations_from_docstring(doc):
    return {k: v for k, v in load_yaml_from_docstring(doc).items()
            if k in ("get", "post", "put", "patch", "delete", "head", "options")}
