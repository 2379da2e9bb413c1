
:- foreign(fc_reset(+string)).
:- foreign(fc_log(-string)).
:- foreign(m_many(+integer,+float,+string,+integer,+float,+integer,+number,+string,+positive,+float)).
:- foreign(m_mix(+integer,-float,?integer,term,+float,-string,?float,-float,-integer,?string)).
:- foreign(rd(+integer,+term)).
:- foreign(rb_out(+integer,+term,-term)).
:- foreign(rb_un(+integer,term,term)).
:- foreign(wrap(+integer,+term,-term)).
:- foreign(unwrap(+integer,+term,+term)).
:- foreign(cp(+term,-term)).
:- foreign(un(+integer,+string,term)).
:- foreign(mk(+integer,+string,-term)).
:- foreign(nd1(+integer,+integer,-integer), [choice_size(1)]).
:- foreign(nd2(+integer,+integer,-integer), [choice_size(2)]).
:- foreign(nd3(+integer,+integer,-integer), [choice_size(3)]).
:- foreign(nd7(+integer,+integer,-integer), [choice_size(7)]).
:- foreign(ndm(+integer,?integer,-float,term), [choice_size(1)]).
:- foreign(scr(+string,term,term)).
:- foreign(scc(+integer,+string,term,term)).
:- foreign(i_integer(+integer)).
:- foreign(o_integer(-integer)).
:- foreign(of_integer(-integer)).
:- foreign(io_integer(?integer)).
:- foreign(ii_integer(+integer,+integer)).
:- foreign(oo_integer(-integer,-integer)).
:- foreign(ioio_integer(?integer,?integer)).
:- foreign(i_positive(+positive)).
:- foreign(o_positive(-positive)).
:- foreign(of_positive(-positive)).
:- foreign(io_positive(?positive)).
:- foreign(ii_positive(+positive,+positive)).
:- foreign(oo_positive(-positive,-positive)).
:- foreign(ioio_positive(?positive,?positive)).
:- foreign(i_float(+float)).
:- foreign(o_float(-float)).
:- foreign(of_float(-float)).
:- foreign(io_float(?float)).
:- foreign(ii_float(+float,+float)).
:- foreign(oo_float(-float,-float)).
:- foreign(ioio_float(?float,?float)).
:- foreign(i_number(+number)).
:- foreign(o_number(-number)).
:- foreign(of_number(-number)).
:- foreign(io_number(?number)).
:- foreign(ii_number(+number,+number)).
:- foreign(oo_number(-number,-number)).
:- foreign(ioio_number(?number,?number)).
:- foreign(i_atom(+atom)).
:- foreign(o_atom(-atom)).
:- foreign(of_atom(-atom)).
:- foreign(io_atom(?atom)).
:- foreign(ii_atom(+atom,+atom)).
:- foreign(oo_atom(-atom,-atom)).
:- foreign(ioio_atom(?atom,?atom)).
:- foreign(i_boolean(+boolean)).
:- foreign(o_boolean(-boolean)).
:- foreign(of_boolean(-boolean)).
:- foreign(io_boolean(?boolean)).
:- foreign(ii_boolean(+boolean,+boolean)).
:- foreign(oo_boolean(-boolean,-boolean)).
:- foreign(ioio_boolean(?boolean,?boolean)).
:- foreign(i_char(+char)).
:- foreign(o_char(-char)).
:- foreign(of_char(-char)).
:- foreign(io_char(?char)).
:- foreign(ii_char(+char,+char)).
:- foreign(oo_char(-char,-char)).
:- foreign(ioio_char(?char,?char)).
:- foreign(i_code(+code)).
:- foreign(o_code(-code)).
:- foreign(of_code(-code)).
:- foreign(io_code(?code)).
:- foreign(ii_code(+code,+code)).
:- foreign(oo_code(-code,-code)).
:- foreign(ioio_code(?code,?code)).
:- foreign(i_byte(+byte)).
:- foreign(o_byte(-byte)).
:- foreign(of_byte(-byte)).
:- foreign(io_byte(?byte)).
:- foreign(ii_byte(+byte,+byte)).
:- foreign(oo_byte(-byte,-byte)).
:- foreign(ioio_byte(?byte,?byte)).
:- foreign(i_in_char(+in_char)).
:- foreign(o_in_char(-in_char)).
:- foreign(of_in_char(-in_char)).
:- foreign(io_in_char(?in_char)).
:- foreign(ii_in_char(+in_char,+in_char)).
:- foreign(oo_in_char(-in_char,-in_char)).
:- foreign(ioio_in_char(?in_char,?in_char)).
:- foreign(i_in_code(+in_code)).
:- foreign(o_in_code(-in_code)).
:- foreign(of_in_code(-in_code)).
:- foreign(io_in_code(?in_code)).
:- foreign(ii_in_code(+in_code,+in_code)).
:- foreign(oo_in_code(-in_code,-in_code)).
:- foreign(ioio_in_code(?in_code,?in_code)).
:- foreign(i_in_byte(+in_byte)).
:- foreign(o_in_byte(-in_byte)).
:- foreign(of_in_byte(-in_byte)).
:- foreign(io_in_byte(?in_byte)).
:- foreign(ii_in_byte(+in_byte,+in_byte)).
:- foreign(oo_in_byte(-in_byte,-in_byte)).
:- foreign(ioio_in_byte(?in_byte,?in_byte)).
:- foreign(i_string(+string)).
:- foreign(o_string(-string)).
:- foreign(of_string(-string)).
:- foreign(io_string(?string)).
:- foreign(ii_string(+string,+string)).
:- foreign(oo_string(-string,-string)).
:- foreign(ioio_string(?string,?string)).
:- foreign(i_chars(+chars)).
:- foreign(o_chars(-chars)).
:- foreign(of_chars(-chars)).
:- foreign(io_chars(?chars)).
:- foreign(ii_chars(+chars,+chars)).
:- foreign(oo_chars(-chars,-chars)).
:- foreign(ioio_chars(?chars,?chars)).
:- foreign(i_codes(+codes)).
:- foreign(o_codes(-codes)).
:- foreign(of_codes(-codes)).
:- foreign(io_codes(?codes)).
:- foreign(ii_codes(+codes,+codes)).
:- foreign(oo_codes(-codes,-codes)).
:- foreign(ioio_codes(?codes,?codes)).

fc_call(i_integer,[X]) :- i_integer(X).
fc_call(o_integer,[X]) :- o_integer(X).
fc_call(of_integer,[X]) :- of_integer(X).
fc_call(io_integer,[X]) :- io_integer(X).
fc_call(ii_integer,[X,Y]) :- ii_integer(X,Y).
fc_call(oo_integer,[X,Y]) :- oo_integer(X,Y).
fc_call(ioio_integer,[X,Y]) :- ioio_integer(X,Y).
fc_call(i_positive,[X]) :- i_positive(X).
fc_call(o_positive,[X]) :- o_positive(X).
fc_call(of_positive,[X]) :- of_positive(X).
fc_call(io_positive,[X]) :- io_positive(X).
fc_call(ii_positive,[X,Y]) :- ii_positive(X,Y).
fc_call(oo_positive,[X,Y]) :- oo_positive(X,Y).
fc_call(ioio_positive,[X,Y]) :- ioio_positive(X,Y).
fc_call(i_float,[X]) :- i_float(X).
fc_call(o_float,[X]) :- o_float(X).
fc_call(of_float,[X]) :- of_float(X).
fc_call(io_float,[X]) :- io_float(X).
fc_call(ii_float,[X,Y]) :- ii_float(X,Y).
fc_call(oo_float,[X,Y]) :- oo_float(X,Y).
fc_call(ioio_float,[X,Y]) :- ioio_float(X,Y).
fc_call(i_number,[X]) :- i_number(X).
fc_call(o_number,[X]) :- o_number(X).
fc_call(of_number,[X]) :- of_number(X).
fc_call(io_number,[X]) :- io_number(X).
fc_call(ii_number,[X,Y]) :- ii_number(X,Y).
fc_call(oo_number,[X,Y]) :- oo_number(X,Y).
fc_call(ioio_number,[X,Y]) :- ioio_number(X,Y).
fc_call(i_atom,[X]) :- i_atom(X).
fc_call(o_atom,[X]) :- o_atom(X).
fc_call(of_atom,[X]) :- of_atom(X).
fc_call(io_atom,[X]) :- io_atom(X).
fc_call(ii_atom,[X,Y]) :- ii_atom(X,Y).
fc_call(oo_atom,[X,Y]) :- oo_atom(X,Y).
fc_call(ioio_atom,[X,Y]) :- ioio_atom(X,Y).
fc_call(i_boolean,[X]) :- i_boolean(X).
fc_call(o_boolean,[X]) :- o_boolean(X).
fc_call(of_boolean,[X]) :- of_boolean(X).
fc_call(io_boolean,[X]) :- io_boolean(X).
fc_call(ii_boolean,[X,Y]) :- ii_boolean(X,Y).
fc_call(oo_boolean,[X,Y]) :- oo_boolean(X,Y).
fc_call(ioio_boolean,[X,Y]) :- ioio_boolean(X,Y).
fc_call(i_char,[X]) :- i_char(X).
fc_call(o_char,[X]) :- o_char(X).
fc_call(of_char,[X]) :- of_char(X).
fc_call(io_char,[X]) :- io_char(X).
fc_call(ii_char,[X,Y]) :- ii_char(X,Y).
fc_call(oo_char,[X,Y]) :- oo_char(X,Y).
fc_call(ioio_char,[X,Y]) :- ioio_char(X,Y).
fc_call(i_code,[X]) :- i_code(X).
fc_call(o_code,[X]) :- o_code(X).
fc_call(of_code,[X]) :- of_code(X).
fc_call(io_code,[X]) :- io_code(X).
fc_call(ii_code,[X,Y]) :- ii_code(X,Y).
fc_call(oo_code,[X,Y]) :- oo_code(X,Y).
fc_call(ioio_code,[X,Y]) :- ioio_code(X,Y).
fc_call(i_byte,[X]) :- i_byte(X).
fc_call(o_byte,[X]) :- o_byte(X).
fc_call(of_byte,[X]) :- of_byte(X).
fc_call(io_byte,[X]) :- io_byte(X).
fc_call(ii_byte,[X,Y]) :- ii_byte(X,Y).
fc_call(oo_byte,[X,Y]) :- oo_byte(X,Y).
fc_call(ioio_byte,[X,Y]) :- ioio_byte(X,Y).
fc_call(i_in_char,[X]) :- i_in_char(X).
fc_call(o_in_char,[X]) :- o_in_char(X).
fc_call(of_in_char,[X]) :- of_in_char(X).
fc_call(io_in_char,[X]) :- io_in_char(X).
fc_call(ii_in_char,[X,Y]) :- ii_in_char(X,Y).
fc_call(oo_in_char,[X,Y]) :- oo_in_char(X,Y).
fc_call(ioio_in_char,[X,Y]) :- ioio_in_char(X,Y).
fc_call(i_in_code,[X]) :- i_in_code(X).
fc_call(o_in_code,[X]) :- o_in_code(X).
fc_call(of_in_code,[X]) :- of_in_code(X).
fc_call(io_in_code,[X]) :- io_in_code(X).
fc_call(ii_in_code,[X,Y]) :- ii_in_code(X,Y).
fc_call(oo_in_code,[X,Y]) :- oo_in_code(X,Y).
fc_call(ioio_in_code,[X,Y]) :- ioio_in_code(X,Y).
fc_call(i_in_byte,[X]) :- i_in_byte(X).
fc_call(o_in_byte,[X]) :- o_in_byte(X).
fc_call(of_in_byte,[X]) :- of_in_byte(X).
fc_call(io_in_byte,[X]) :- io_in_byte(X).
fc_call(ii_in_byte,[X,Y]) :- ii_in_byte(X,Y).
fc_call(oo_in_byte,[X,Y]) :- oo_in_byte(X,Y).
fc_call(ioio_in_byte,[X,Y]) :- ioio_in_byte(X,Y).
fc_call(i_string,[X]) :- i_string(X).
fc_call(o_string,[X]) :- o_string(X).
fc_call(of_string,[X]) :- of_string(X).
fc_call(io_string,[X]) :- io_string(X).
fc_call(ii_string,[X,Y]) :- ii_string(X,Y).
fc_call(oo_string,[X,Y]) :- oo_string(X,Y).
fc_call(ioio_string,[X,Y]) :- ioio_string(X,Y).
fc_call(i_chars,[X]) :- i_chars(X).
fc_call(o_chars,[X]) :- o_chars(X).
fc_call(of_chars,[X]) :- of_chars(X).
fc_call(io_chars,[X]) :- io_chars(X).
fc_call(ii_chars,[X,Y]) :- ii_chars(X,Y).
fc_call(oo_chars,[X,Y]) :- oo_chars(X,Y).
fc_call(ioio_chars,[X,Y]) :- ioio_chars(X,Y).
fc_call(i_codes,[X]) :- i_codes(X).
fc_call(o_codes,[X]) :- o_codes(X).
fc_call(of_codes,[X]) :- of_codes(X).
fc_call(io_codes,[X]) :- io_codes(X).
fc_call(ii_codes,[X,Y]) :- ii_codes(X,Y).
fc_call(oo_codes,[X,Y]) :- oo_codes(X,Y).
fc_call(ioio_codes,[X,Y]) :- ioio_codes(X,Y).
fc_call(rd(K), [X]) :- rd(K, X).
fc_call(un(K,V), [X]) :- un(K, V, X).
fc_call(mk(K,V), [X]) :- mk(K, V, X).
fc_call(rbo(K), [X,Y]) :- rb_out(K, X, Y).
fc_call(rbu(K), [X,Y]) :- rb_un(K, X, Y).
fc_call(rbl(K), [X,Y]) :- rbl(K, X, Y).
fc_call(w(K), [X,Y]) :- wrap(K, X, Y).
fc_call(uw(K), [X,Y]) :- unwrap(K, X, Y).
fc_call(cp, [X,Y]) :- cp(X, Y).
fc_call(many, [A,B,C,D,E,F,G,H,I,J]) :- m_many(A,B,C,D,E,F,G,H,I,J).
fc_call(mix, [A,B,C,D,E,F,G,H,I,J]) :- m_mix(A,B,C,D,E,F,G,H,I,J).
fc_call(W, [K,Z,R]) :- fc_loc(W, K, Z, R).

% the argument is a variable of the calling clause itself
fc_loc(l1, K, Z, R) :- wrap(K, X, R), fc_clob(Z), X = Z.
fc_loc(l2, K, Z, R) :- wrap(K, X, R0), fc_clob(X), fc_l2(R0, R, Z).
fc_loc(l3, K, _, R) :- wrap(K, _, R), fc_clob(1).
fc_loc(l4, K, Z, r(A,B)) :- wrap(K, X, A), wrap(K, Y, B), fc_clob(Z), X = Y, fc_clob(X).
fc_loc(l5, K, Z, R) :- unwrap(K, X, R), fc_clob(Z), X = Z.
fc_loc(l6, K, Z, R) :- unwrap(K, X, Y), fc_clob(Z), X = Z, R = Y.
fc_loc(l7, K, Z, R) :- rb_out(K, X, Y), fc_clob(Z), X = Z, R = f(Y,X).
fc_loc(l8, K, Z, R) :- rb_un(K, f(X,Y), T), fc_clob(Z), X = Y, R = T.
fc_loc(l9, K, Z, R) :- un(K, '5', X), fc_clob(Z), R = X.
fc_loc(l10, K, _, R) :- fc_l10(K, R), fc_clob(1), fc_clob(2).
fc_loc(l11, _, Z, R) :- cp(f(X,Y,X), T), fc_clob(Z), X = 1, Y = 2, R = T.
fc_loc(l12, _, Z, R) :- cp(X, T), fc_clob(Z), X = 1, R = f(T,X).
fc_l2(R, R, _).
fc_l10(K, R) :- fc_clob(K), wrap(K, X, R), fc_clob(0), fc_clob(X).
fc_clob(_) :- fc_c2(_, A, B, C), fc_c3(A, B, C).
fc_c2(_, A, B, C) :- fc_c3(A, B, C), fc_c3(C, A, B), fc_c3(_, _, _).
fc_c3(_, _, _).
rbl(K, X, Y) :- rb_out(K, f(X,A,A,_), Z), fc_clob(Z), Z = f(Y,_,_,_).

fc_case(S) :-
	read_term(S, T, []), T \== end_of_file,
	fc_do(T).
fc_do(c(V,P,L)) :-
	fc_reset(V),
	catch((fc_call(P, L) -> R = yes ; R = no), E, R = E),
	fc_log(G),
	ln_put(r(R,G,L)).
fc_do(nd(G,X)) :-
	fc_reset(''),
	catch(findall(X-H, (call(G), fc_log(H)), L), E, L = E),
	fc_log(H1),
	ln_put(L-H1).
fc_do(s(W,S)) :-
	fc_reset(''),
	catch(findall(R, fc_scr(W, S, R), L), E, L = E),
	ln_put(L).

fc_scr(a, S, r(X,Y,L)) :- fc_s(S, X, Y, L).
fc_scr(b, S, R) :- scr(S, X, Y), fc_log(L), R = r(X,Y,L).
fc_scr(c, S, r(X,X,L)) :- fc_s(S, X, X, L).
fc_scr(d, S, r(X,1,L)) :- fc_s(S, X, 1, L).
fc_scr(e, S, R) :- (Z = a ; Z = b), fc_reset(''), scr(S, X, Y), fc_log(L), R = r(X,Y,L,Z).
fc_scr(f, S, R) :- scr(S, X, Y), fc_log(L), R = r(X,Y,L), !.
fc_scr(x(K), S, R) :- scc(K, S, X, Y), fc_log(L), R = r(X,Y,L).
fc_s(S, X, Y, L) :- scr(S, X, Y), fc_log(L).

:- dynamic(gy/1).
g0(_) :- fail.
g1(1).
g2(1).
g2(2).
g3(1).
g3(2).
g3(3).
gx(1).
gx(_) :- throw(ball).
gt(_) :- throw(ball).
gd(X) :- fc_mem(X, [1,2]), fc_c3(X, _, _).
gy(1).
gy(2).
gn(X) :- scr('qbNc20eK', X, _).
gr(X) :- scr('qbRc30neK', X, _).
fc_mem(X, [X|_]).
fc_mem(X, [_|L]) :- fc_mem(X, L).
