"""PartialDateTime, as in iris 3.0."""
import functools
import operator


@functools.total_ordering
class PartialDateTime:
    __slots__ = ("year", "month", "day", "hour", "minute", "second", "microsecond")
    timetuple = None

    def __init__(self, year=None, month=None, day=None, hour=None, minute=None,
                 second=None, microsecond=None):
        self.year = year
        self.month = month
        self.day = day
        self.hour = hour
        self.minute = minute
        self.second = second
        self.microsecond = microsecond

    def __repr__(self):
        attr_pieces = [
            "{}={}".format(name, getattr(self, name))
            for name in self.__slots__
            if getattr(self, name) is not None
        ]
        return "{}({})".format(type(self).__name__, ", ".join(attr_pieces))

    def __gt__(self, other):
        if isinstance(other, type(self)):
            raise TypeError("Cannot order PartialDateTime instances.")
        result = False
        try:
            for attr_name in self.__slots__:
                attr = getattr(self, attr_name)
                other_attr = getattr(other, attr_name)
                if attr is not None and attr != other_attr:
                    result = attr > other_attr
                    break
        except AttributeError:
            result = NotImplemented
        return result

    def __eq__(self, other):
        if isinstance(other, type(self)):
            slots_attrgetter = operator.attrgetter(*self.__slots__)
            return slots_attrgetter(self) == slots_attrgetter(other)
        result = True
        try:
            for attr_name in self.__slots__:
                attr = getattr(self, attr_name)
                if attr is not None and attr != getattr(other, attr_name):
                    result = False
                    break
        except AttributeError:
            result = NotImplemented
        return result

    def __ne__(self, other):
        result = self.__eq__(other)
        return result if result is NotImplemented else not result

    def __cmp__(self, other):
        raise TypeError("not supported")

    def __hash__(self):
        return hash(tuple(getattr(self, n) for n in self.__slots__))
