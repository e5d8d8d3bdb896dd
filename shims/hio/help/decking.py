from collections import deque


class Deck(deque):
    """deque where push ignores None and pull may return None when empty."""

    def __repr__(self):
        return "Deck(%s)" % repr(list(self))

    def push(self, elem):
        if elem is not None:
            self.append(elem)

    def pull(self, emptive=False):
        try:
            return self.popleft()
        except IndexError:
            if not emptive:
                raise
            return None

    def pullmany(self):
        while self:
            yield self.popleft()
