%{
att!(@LIB@);
// what this says ends here
%}
%attr Att
%target Run
%%
%token PLUS "+"
%token MINUS "-"
%token TIMES "*"
%token POWER "^"
%token NUM ([0-9]+)
%token LPR "("
%token RPR ")"
%skip ( +)
%left "+" "-"
%left "*"
%right "^"
%right NEG
%%
Top: E !{ self.say(&["=", &$1.text]); !}.
E: E "+" E !{ $$ = Att::of(&["(", &$1.text, "+", &$3.text, ")"]); !}
 | E "-" E !{ $$ = Att::of(&["(", &$1.text, "-", &$3.text, ")"]); !}
 | E "*" E !{ $$ = Att::of(&["(", &$1.text, "*", &$3.text, ")"]); !}
 | E "^" E !{ $$ = Att::of(&["(", &$1.text, "^", &$3.text, ")"]); !}
 | "-" E %prec NEG !{ $$ = Att::of(&["(-", &$2.text, ")"]); !}
 | "(" E ")" !{ $$ = $2.clone(); !}
 | NUM
 .
