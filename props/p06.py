S = dict(src="p06_dispatch.c", flags=["--memory-leak-check"])
PROP = dict(id="P06", level="proof", assumptions=["setlocale is modelled by a record of the numeric category"], goals=[
    Goal("read", entry="h_read", functions=["at_bitmap_read", "at_input_opts_new", "at_input_opts_free", "at_bitmap_free"], **S),
    Goal("write", entry="h_write", functions=["at_splines_write", "at_output_opts_new", "at_output_opts_free"], **S),
])
