% values with which particular predicates do more than refuse

extra(P, L) :- ex(P, L), !.
extra(_, []).

ex(open/_, [read, write, append, drv_in, [type(binary)], [alias(zz)], [reposition(true)], [eof_action(reset)], [buffering(none)], [foo], [alias(s_in)], [type(_)]]).
ex(seek/_, [bof, current, eof]).
ex(set_stream_type/_, [text, binary]).
ex(set_stream_buffering/_, [none, line, block]).
ex(set_stream_eof_action/_, [error, eof_code, reset]).
ex(set_stream_position/_, ['$stream_position'(0,0,0,0), '$stream_position'(1,2,3,a)]).
ex(set_stream_alias/_, [zz, user_input]).
ex(add_stream_alias/_, [zz, user_input]).
ex(stream_property/_, [alias(_), mode(read), position(_), file_name(_), end_of_stream(_), foo(_)]).
ex(close/_, [[force(true)], [force(_)], [foo]]).
ex(op/_, [200, 1200, xfx, fy, yfx, xf, [a, b], [a|_], ',', '|', '{}']).
ex(current_op/_, [xfx, fy, 200]).
ex(char_conversion/_, [b, '\'', ab]).
ex(current_char_conversion/_, [b, ab]).
ex(set_prolog_flag/_, [bounded, max_integer, double_quotes, codes, chars, atom, debug, on, off, unknown, error, fail, occurs_check, strict_iso, char_conversion, show_error, back_quotes, singleton_warning]).
ex(current_prolog_flag/_, [bounded, max_integer, double_quotes]).
ex(read_term/_, [[variables(_)], [variable_names(_)], [singletons(_)], [end_of_term(eof)], [syntax_error(fail)], [foo(_)], [variables(_)|_]]).
ex(write_term/_, [[quoted(true)], [max_depth(2)], [ignore_ops(true), numbervars(true)], [variable_names(['X'=_])], [variable_names(['X'=_|_])], [priority(999)], [quoted(_)], [quoted(foo)], [foo(_)], [space_args(true)], [portrayed(true)]]).
ex(P/3, [[quoted(true)], [max_depth(-1)], [variables(_)], [syntax_error(fail)]]) :- atom(P), memberchk(P, [write_term_to_atom, write_term_to_chars, write_term_to_codes, read_term_from_atom, read_term_from_chars, read_term_from_codes]).
ex(format/_, ["~w", '~d~n', "~a~q", '~*c', '~2d', "~8r", "~e", "~4f", '~s', "~p", "~i~w", '~', '~z', '~t~w~10|', "~20+", "~c", "~D", [_], [1,2], "~g", '%d %s', "~R", "~?", "%*d", "~N~k"]).
ex(P/3, ["~w", '~d~n', "~a~q", '~*c', "~8r", "~e", '~s', '~', '~z', [_], [1,2]]) :- memberchk(P, [format_to_atom, format_to_chars, format_to_codes]).
ex(functor/_, [256, 255, 257]).
ex(arg/_, [2, f(a,b)]).
ex((=..)/_, [[a,b], [f|_], [1], [1,2], [f(a),b]]).
ex((is)/_, [1+2, 1+a, 1/0, 1+_, foo(1), 7 mod 0, 2**(-1), 1.0e308*10, a, "a", [1], [_], 1<<100, max(1,a), random, cputime, 2 ** 3.0]).
ex((=:=)/_, [1+2, 1+a, 1/0, 1+_]).
ex((<)/_, [1+2, 1+a, 1/0, 1+_]).
ex((#=)/_, [_+_, _*_, 2**_, a+1, _/_, _ rem 3, min(_,_), max(1, _), dist(_,_), abs(_)]).
ex((#=#)/_, [_+_, _*_, a+1]).
ex((#<)/_, [_+_, _*_, a+1]).
ex((#\=)/_, [_+_, _*_, a+1]).
ex((#<=>)/_, [_#=_, _#<3, #\ _, a#=b, 2]).
ex((#/\)/_, [_#=_, _#<3]).
ex((#\)/_, [_#=_, _#<3, #\ _]).
ex(fd_domain/_, [[1,2,3], [1|_], [-1,3], [1,a], 268435455, [fd, _]]).
ex(fd_labeling/_, [[variable_method(ff)], [value_method(max)], [backtracks(_)], [variable_method(foo)], [foo]]).
ex(fd_relation/_, [[[1,2],[3,4]], [[1],[2]], [[1,2],[3]], [[a,b]], []]).
ex(fd_relationc/_, [[[1,2],[3,4]], [[1],[2]], [[1,2],[3]]]).
ex(fd_element/_, [[1,2,3], [1,a]]).
ex(fd_element_var/_, [[1,2,_], [_,_]]).
ex(fd_minimize/_, [fd_labeling(_), true]).
ex(fd_maximize/_, [fd_labeling(_), true]).
ex(sort/_, [[c,a,b,a], [1-a,2-b]]).
ex(msort/_, [[c,a,b,a]]).
ex(keysort/_, [[2-a,1-b], [1-a,_], [1-a|_]]).
ex(sub_atom/_, [abcd, bc, 2]).
ex(atom_concat/_, [ab, abc]).
ex(number_codes/_, ["12", "1 2", "0x1G", "1.5", " 12", "12 ", [0'1|_]]).
ex(number_chars/_, [['1','2'], ['1',' '], ['1'|_], ['3', _]]).
ex(number_atom/_, ['12', '1x', ' 1', '0''a']).
ex(name/_, ["12", "1x"]).
ex(clause/_, [dyn(_,_), static(_), atom(_), true]).
ex(retract/_, [dyn(_,_), static(_), atom(_), (dyn(_,_):-true), (_:-true)]).
ex(asserta/_, [dyn(9), (dyn(_):-a,_), (static(_):-true), (foo:-4), (_:-true), (atom(_):-true), (foo:-a;4), drv_n1, (dyn(_):-!,\+ _ ; foo -> bar)]).
ex(assertz/_, [dyn(9), (dyn(_):-a,_), (static(_):-true), (foo:-4), (_:-true), (atom(_):-true), (foo:-a;4), drv_n1]).
ex(retractall/_, [dyn(_), static(_), atom(_), 3, newp(_)]).
ex(abolish/_, [dyn/2, static/1, atom/1, foo/(-1), foo/a, foo/_, _/1, newp/1, foo/1000, atom]).
ex(current_predicate/_, [dyn/_, foo/_, _/1, dyn/a, 1/_]).
ex(predicate_property/_, [dyn(_), static(_), atom(_), dynamic, foo, prolog_file(_)]).
ex(listing/_, [dyn, dyn/1, [dyn], foo/_]).
ex(findall/_, [dyn(_), (true;fail), (foo,1), dyn(_,_)]).
ex(bagof/_, [dyn(_), _^dyn(_,_), (foo,1), _^_]).
ex(setof/_, [dyn(_), _^dyn(_,_), (foo,1), _^_]).
ex(countall/_, [dyn(_), (true;fail)]).
ex(forall/_, [dyn(_), (true;fail)]).
ex(catch/_, [throw(_), throw(a), dyn(_), (foo,1)]).
ex(call_nth/_, [dyn(_), 2]).
ex(call_det/_, [dyn(_), true]).
ex(phrase/_, [dyn, "ab", [_], ("a","b"), {true}]).
ex(length/_, [5, [_|_], 10000]).
ex(between/_, [inf, infinite, 3]).
ex(numbervars/_, [1000]).
ex(setarg/_, [f(a,_,c), true, false]).
ex(nb_setarg/_, [f(a,_,c)]).
ex(g_assign/_, [drv_g(1), g_array(3), g_array(3,a), g_array([a,b]), g_array_auto(2), drv_g(-)]).
ex(g_assignb/_, [drv_g(1), g_array(3), g_array([a,b])]).
ex(g_link/_, [drv_g(1), g_array(3)]).
ex(g_read/_, [drv_g(1), nog]).
ex(g_inc/_, [nog]).
ex(g_array_size/_, [nog]).
ex(environ/_, ['PATH', 'HOME']).
ex(working_directory/_, []).
ex(change_directory/_, ['.']).
ex(file_permission/_, [drv_in, read, [read, write], search]).
ex(file_property/_, [drv_in, size(_), type(_), permission(_), real_file_name(_), foo(_)]).
ex(file_exists/_, [drv_in]).
ex(copy_file/_, [drv_in, drv_in2]).
ex(rename_file/_, [drv_in2]).
ex(directory_files/_, ['.']).
ex(decompose_file_name/_, ['/a/b.c', 'x.y', '.', '..', '/']).
ex(prolog_file_name/_, ['x.pl', 'x.', 'x']).
ex(absolute_file_name/_, ['~', '~root', '$HOME/x', '$A', '../../../../../../../../..', '/', './/', '$HOME$HOME', '${HOME}']).
ex(is_absolute_file_name/_, ['/a', '~']).
ex(is_relative_file_name/_, ['/a', 'b']).
ex(temporary_name/_, ['fooXXXXXX']).
ex(temporary_file/_, ['.', '/tmp']).
ex(date_time/_, [dt(1,2,3,4,5,6), dt(_,_,_,_,_,_)]).
ex(socket/_, ['AF_INET', 'AF_UNIX']).
ex(socket_bind/_, ['AF_INET'(_, 0), 'AF_INET'(localhost, 0), 'AF_UNIX'(drv_sock), 'AF_INET'(a, b)]).
ex(socket_connect/_, ['AF_INET'(localhost, 1), 'AF_UNIX'(nosock)]).
ex(hostname_address/_, [localhost, '127.0.0.1', '1.2.3.4.5']).
ex(exec/_, ['exit 3']).
ex(spawn/_, [true, ['1'], ['-c', 'exit 3'], [a|_]]).
ex(popen/_, ['exit 3', 'echo x', read, write]).
ex(shell/_, ['exit 3', 'true']).
ex(system/_, ['exit 3', 'true']).
ex(statistics/_, [runtime, user_time, local_stack, trail_stack, atoms, foo]).
ex(atom_property/_, [length(_), op, hash(_), needs_quotes, foo, needs_scan]).
ex(term_ref/_, [5]).
ex(term_hash/_, [f(a), 2, 100]).
ex(throw/_, [error(a, b), error(_, _)]).
ex(expand_term/_, [(a-->b), (a,[x]-->b), (a-->"x",!,{b},\+c), (_-->a), (a-->_), (a-->1), (1-->a), ([x]-->a), (a,b-->c)]).
ex(maplist/A, L) :- A > 5, !, L = [succ].
ex(maplist/_, [atom, succ, dyn, (=)]).
ex(compare/_, [(<), (=), (>), (=<)]).
ex(lower_upper/_, ['B', "AB", b]).
ex(char_code/_, [255, 256, 1, 97, ab]).
ex(P/_, [255, 256, b, ab, 1]) :- memberchk(P, [put_char, put_code, put_byte, peek_char, peek_code, peek_byte, get_char, get_code, get_byte, unget_char, unget_code, unget_byte, put, get, get0, skip]).
ex(P/_, ['f(X)', 'f(', "f(X).", 'X. Y', '/*', "'abc", '"a']) :- memberchk(P, [read_from_atom, read_from_chars, read_from_codes, read_token_from_atom, read_token_from_chars, read_token_from_codes]).
ex(sr_open/_, [drv_in, [keep_files_open], [include(_)], [reposition(true)], [undo_directives], [restart], [foo]]).
ex(sr_read_term/_, [[variable_names(_)], 0]).
ex(consult/_, [nofile, [nofile], [], [a|b]]).
ex(load/_, [nofile, [nofile]]).
ex(number/_, []).
ex(random/_, [5, 2.5]).
ex(name_query_vars/_, [['X'=_, 'Y'=1], [a=b]]).
ex(bind_variables/_, [[exclude([_])], [from(3)], [next(_)], [namevars], [numbervars], [foo], [from(a)]]).
ex(name_singleton_vars/_, [f(_,_)]).
ex(select/5, [[s_in], [s_out], [3]]).
ex(append/_, [[1], [1,2]]).
ex(sum_list/_, [[1,2.5], [1,a]]).
ex(max_list/_, [[1,2.5], [1,a]]).
ex(min_list/_, [[1,2.5], [1,a]]).
ex(wait/_, []).

% what cannot be called without leaving the process or waiting for ever
drv_skip(halt, _, _).
drv_skip(abort, _, _).
drv_skip(stop, _, _).
drv_skip(fork_prolog, _, [X]) :- var(X).
drv_skip(sleep, _, [X]) :- number(X), X > 1.
drv_skip(tab, _, L) :- member(X, L), integer(X), X > 1000000.
drv_skip(term_ref, _, [X,Y]) :- var(X), nonvar(Y).
drv_skip(skip, _, _).
drv_skip(socket_close, _, [X]) :- integer(X), X > 2.
drv_skip(repeat, _, _).
drv_skip(wait, _, _).
drv_skip(select, 5, [_,_,_,_,T]) :- ( var(T) -> fail ; number(T), T >= 0, T < 2000 -> fail ; number(T) ).
drv_skip(socket_accept, _, _).
drv_skip(N, A, L) :- drv_big(N, A), member(X, L), integer(X), X > 1000000.
drv_big(format, 2).
