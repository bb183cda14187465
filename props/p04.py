S = dict(src="p04_exception.c", functions=["at_exception_new", "at_exception_got_fatal", "at_exception_fatal", "at_exception_warning"])
PROP = dict(id="P04", level="proof", assumptions=[], goals=[
    Goal("step", entry="h_step", **S),
    Goal("null", entry="h_null", **S),
])
