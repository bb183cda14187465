S = dict(src="p02_opts.c", srcs=["fit.c", "logreport.c"], flags=["--memory-leak-check"])
PROP = dict(id="P02", level="proof", assumptions=[], goals=[
    Goal("fitting_copy", entry="h_fitting_copy", functions=["at_fitting_opts_copy", "at_fitting_opts_free", "at_color_copy", "new_fitting_opts"], **S),
    Goal("fitting_null", entry="h_fitting_null", functions=["at_fitting_opts_copy"], **S),
    Goal("fitting_new", entry="h_fitting_new", functions=["at_fitting_opts_new", "new_fitting_opts"], **S),
    Goal("input", entry="h_input", functions=["at_input_opts_new", "at_input_opts_copy", "at_input_opts_free"], **S),
    Goal("output", entry="h_output", functions=["at_output_opts_new", "at_output_opts_copy", "at_output_opts_free"], **S),
])
