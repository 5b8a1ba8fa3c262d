%{
att!(@LIB@);
// what this says ends here
%}
%attr Att
%target Run
%%
%token ID ([a-z])
%token NUM ([0-9])
%token SEMI ";"
%token LPR "("
%token RPR ")"
%%
Doc: | Doc Stmt .
Stmt: ID Expr ";" !{ self.say(&["set ", &$1.text, &$2.text]); !}
  | Bad ";" !{ self.say(&["bad ", &$1.text]); !}
  .
Expr: NUM
  | "(" Expr ")" !{ $$ = Att::of(&["(", &$2.text, ")"]); !}
  | "(" Lost ")" !{ $$ = Att::of(&["(?", &$2.text, ")"]); !}
  .
Bad: %error .
Lost: %error .
