"""A message type of one's own, as users of the library define them: enumerations of every kind."""
from oidcmsg.message import (OPTIONAL_LIST_OF_SP_SEP_STRINGS, OPTIONAL_LIST_OF_STRINGS, SINGLE_OPTIONAL_INT,
                             SINGLE_OPTIONAL_JSON, SINGLE_OPTIONAL_STRING, SINGLE_REQUIRED_BOOLEAN, SINGLE_REQUIRED_INT,
                             SINGLE_REQUIRED_JSON, SINGLE_REQUIRED_STRING, Message)


class Own(Message):
    c_param = {
        "s": SINGLE_REQUIRED_STRING,
        "n": SINGLE_REQUIRED_INT,
        "on": SINGLE_OPTIONAL_INT,
        "b": SINGLE_REQUIRED_BOOLEAN,
        "l": OPTIONAL_LIST_OF_STRINGS,
        "sp": OPTIONAL_LIST_OF_SP_SEP_STRINGS,
        "j": SINGLE_REQUIRED_JSON,
        "oj": SINGLE_OPTIONAL_JSON,
        "os": SINGLE_OPTIONAL_STRING,
    }
    c_default = {"os": "one", "l": ["one"], "j": {"k": ["v"]}}
    c_allowed_values = {"s": ["one", "two"], "on": [1, 2, 30], "l": ["one", "two"], "sp": ["one", "two", "three"]}
