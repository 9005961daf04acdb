c("C01","proof","Contracts on visit_positional, visit_named; "+TRUST, GEN)
c("C02","proof","Contract on visit_named and the places; "+TRUST, GEN)
c("C03","proof","Contract on visit_named; "+TRUST, GEN)
c("C04","proof","Contract on visit_positional; "+TRUST, GEN)
c("C05","proof","Contracts on the table searches and the frame chain; "+TRUST, GEN, nohelp=True, gen=True)
c("C06","proof","Contracts on subcommand search; "+TRUST, GEN, gen=True)
c("C07","proof","Contracts on every place; "+TRUST, GEN)
c("C08","proof","Contracts on the derived end-of-parse code of the definitions of gen/list.py, and on the error constructors it calls; "+TRUST, GEN, gen=True)
c("C09","proof","Contracts on set_default and set_default_parse; "+TRUST, GEN, gen=True)
c("C10","proof","Contracts on the places; "+TRUST, GEN, gen=True)
c("C11","proof","Contracts on the error constructors and description lookup; "+TRUST, GEN, nohelp=True, gen=True)
c("C12","proof","Panic freedom and termination of the functions under contract; "+TRUST, GEN, nohelp=True, gen=True)
c("C13","proof","Contracts on the help path; "+TRUST, GEN, nohelp=True)
c("C14","exploration","Bounded runs only.", GEN)
c("C16","exploration","Bounded runs only.", GEN)
NA={"C15":"rejection happens in the proc-macro and in rustc, over token streams of the syn crate: no installed deductive verifier can put contracts on code over syn's types, and the statement is about programs that do not compile, which have no run to specify"}
