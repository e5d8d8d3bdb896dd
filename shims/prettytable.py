class PrettyTable:
    """Offline stand-in: holds rows, prints them tab separated."""
    def __init__(self, field_names=None, **kwa):
        self.field_names = field_names or []
        self.rows = []
        self.align = {}
        self.title = None

    def add_row(self, row, **kwa):
        self.rows.append(row)

    def add_column(self, *pa, **kwa):
        pass

    def __str__(self):
        return "\n".join("\t".join(map(str, r)) for r in [self.field_names] + self.rows)

    def get_string(self, **kwa):
        return str(self)
