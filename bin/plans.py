"""Which scenarios decide which property, and within what bounds."""

ASSUMPTIONS = [
    "the LLVM IR rustc produces for the pod and the launcher at opt-level 1, with panics aborting and without vectorisation, "
    "behaves as the shipped build; sampled paths are replayed on the binary linked from the same IR",
    "one process, one thread; the operating system's calls are modelled in memory (files, standard streams, allocation, time)",
    "hash tables are seeded with one fixed seed, in C14.seeds with five; orders that depend on it are compared as sets",
    "z3 and the symbolic executor in /verif/engine are correct (self-test: random expressions against concrete evaluation and z3)",
]

NUM = "amounts are decimals of up to 4 whole and 4 fractional digits whose digits are symbolic"

PLANS = {
    "C01": {
        "quick": ["C01.none", "C01.one", "C01.mult", "C01.sum", "C01.fine", "C01:C05.seq", "C01:C02.cost", "C01:many.txns",
                  "C01:any.balance"],
        "bounds": "one to four transfers; " + NUM + "; scales 0-4; explicit tolerances of scale 0, 2 or 4 or none; "
                  "multipliers 0-9.99; asserted amount at every distance up to ten units in steps of its last digit",
    },
    "C02": {
        "quick": ["C02.subtree", "C02.currency", "C02.dates", "C02.cost", "C02:C05.seq", "C02:C25.seq", "C02:many.txns",
                  "C02:many.accounts", "C02:many.deep", "C02:many.curs"],
        "bounds": "five accounts in three levels, each balance target, each posted to or not; three currencies in every placement; "
                  "two transfers and a balance on symbolic days in every file order; amounts 1000-1999 symbolic",
    },
    "C03": {
        "quick": ["C03.chain", "C03.subtree", "C03.currency", "C03:C05.seq", "C03:C02.cost", "C03:C25.seq", "C03:many.failing",
                  "C03:many.accounts"],
        "bounds": "three balances in sequence, each right or wrong by a symbolic distance, over accounts, sub-accounts and currencies",
    },
    "C04": {
        "quick": ["C04.simple", "C04.subtree", "C04.after", "C04.currency", "C04.self", "C04:C05.seq", "C04:C06.pad",
                  "C04:C07.other", "C04:C25.pad", "C04:many.deep", "C04:many.pads"],
        "bounds": "one pad and up to two balances; " + NUM + "; before, after and without postings of its own; sub-accounts; "
                  "second currencies; tolerances",
    },
    "C05": {
        "quick": ["C05.seq", "C05.two", "C05.source", "C05:C04.subtree", "C05:C06.seq", "C05:C06.pad", "C05:C25.pad",
                  "C05:many.deep", "C05:many.pads"],
        "thorough": ["C05.seq5"],
        "bounds": "every sequence of four (thorough: five) pads, balances, transfers and closes on two nested accounts; two pads on "
                  "separate accounts; every state of the source account",
    },
    "C06": {
        "quick": ["C06.seq", "C06.dates", "C06.posts", "C06.pad", "C06:C05.seq", "C06:C05.source", "C06:many.errors",
                  "C06:many.accounts", "C06:any.context"],
        "thorough": ["C06.seq5"],
        "bounds": "every sequence of four (thorough: five) opens, closes, transfers, balances and pads; symbolic days of open, close "
                  "and use in every file order; every arrangement of five kinds of account over three postings; pads whose accounts "
                  "come and go",
    },
    "C07": {
        "quick": ["C07.txn", "C07.inferred", "C07.other", "C07.pad", "C07:many.curs"],
        "bounds": "lists of none, one or two currencies (also ones with a common prefix) on up to two accounts; written, "
                  "inferred, priced and balanced currencies; pads; sub-accounts",
    },
    "C08": {
        "quick": ["C08.two", "C08.mult", "C08.default", "C08.three", "C08.currencies", "C08.same", "C08.zero", "C08.few",
                  "C08:C09.many", "C08:C10.mixed", "C08:many.errors", "C08:many.posts"],
        "bounds": "two postings of scales 0-3 at every distance up to ten units; every multiplier 0-9.99; default tolerances for the "
                  "currency, another one, or all; three and four postings of scales 0, 1, 3 with any residual up to 0.120; two "
                  "currencies; zeros of either sign; failed transactions between others",
    },
    "C09": {
        "quick": ["C09.auto", "C09.near", "C09.currency", "C09.weights", "C09.many", "C09.held", "C09:many.posts"],
        "bounds": "two or three other postings with symbolic amounts of scales 0, 2, 3 and either sign; the gap at each place, with or "
                  "without its currency; one or two currencies; priced and costed others; more than one gap",
    },
    "C10": {
        "quick": ["C10.price", "C10.total", "C10.cost", "C10.lot", "C10.mixed", "C10.sign", "C10.nothing", "C10.thirds",
                  "C10:C11.lots", "C10:many.lots", "C10:any.free"],
        "bounds": "symbolic units (scales 0-2) at four per-unit amounts, symbolic totals at four units, symbolic costs at three units; "
                  "balanced or off by up to 12 in the last place or one below; dates, labels and currencies symbolic or in every combination",
        "outside": "units and per-unit amount both symbolic; totals whose quotient by the units does not terminate",
    },
    "C11": {
        "quick": ["C11.lots", "C11.three", "C11.spec", "C11.method", "C11.again", "C11.same", "C11.near", "C11.other",
                  "C11:C10.lot", "C11:many.lots", "C11:any.free"],
        "thorough": ["C11.three-all"],
        "bounds": "two or three lots of symbolic size and one or two sales of symbolic size; every booking method from account, ledger or "
                  "default; costs and dates in every order (thorough) or the crossing orders (quick); specifications by date, cost and label",
        "outside": "average booking (not implemented in the program); short positions",
    },
    "C13": {
        "quick": ["C13.mix", "C13.order", "C13.post", "C13.effect", "C13:C01.none", "C13:C02.subtree", "C13:C03.chain",
                  "C13:C03.subtree", "C13:C04.subtree", "C13:C04.currency", "C13:C05.seq", "C13:C05.two", "C13:C05.source",
                  "C13:C06.seq", "C13:C06.dates", "C13:C06.posts", "C13:C06.pad", "C13:C07.txn", "C13:C07.inferred",
                  "C13:C07.other", "C13:C08.three", "C13:C08.currencies", "C13:C08.same", "C13:C09.many", "C13:C09.currency",
                  "C13:C11.spec", "C13:C25.pad", "C13:C25.seq", "C13:many.errors", "C13:many.failing", "C13:many.posts",
                  "C13:any.context"],
        "thorough": ["C13.mix4"],
        "bounds": "every arrangement of three (thorough: four) directives of seven kinds, valid and invalid, with symbolic amounts; "
                  "symbolic dates; the posting at fault at each of four places",
    },
    "C12": {
        "quick": ["C12.kinds", "C12.text", "C12.txn", "C12.order", "C12.lots", "C12.meta", "C12:C02.subtree", "C12:C03.chain",
                  "C12:C04.subtree", "C12:C05.seq", "C12:C05.two", "C12:C05.source", "C12:C06.seq", "C12:C06.posts", "C12:C06.pad",
                  "C12:C07.txn", "C12:C07.inferred", "C12:C07.other", "C12:C08.three", "C12:C08.currencies", "C12:C09.auto",
                  "C12:C09.many", "C12:C09.currency", "C12:C10.lot", "C12:C10.mixed", "C12:C11.spec", "C12:C11.again",
                  "C12:C25.text", "C12:many.txns", "C12:many.posts", "C12:many.lots", "C12:many.accounts", "C12:many.deep",
                  "C12:many.curs", "C12:many.pads", "C12:many.texts", "C12:any.balance", "C12:any.free"],
        "bounds": "every kind of directive with symbolic fields; texts of any ASCII character, any two-byte and most three- and "
                  "four-byte characters; every combination of flag, payee, narration, tags, links and metadata; symbolic dates in every file "
                  "order; up to two lots per transaction",
    },
    "C14": {
        "quick": ["C14.mix", "C14.kinds", "C14.lots", "C14.txn", "C14.part", "C14.repeat", "C14.seeds", "C14:C03.chain",
                  "C14:C05.two", "C14:C05.source", "C14:C06.seq", "C14:C06.posts", "C14:C06.pad", "C14:C07.txn", "C14:C07.inferred",
                  "C14:C07.other", "C14:C08.three", "C14:C08.currencies", "C14:C09.many", "C14:C09.currency", "C14:C10.lot",
                  "C14:C10.mixed", "C14:C11.spec", "C14:C25.text", "C14:many.errors", "C14:many.txns", "C14:many.posts",
                  "C14:many.lots", "C14:many.accounts", "C14:many.deep", "C14:many.curs", "C14:many.pads", "C14:many.texts",
                  "C14:any.balance", "C14:any.free", "C14:any.context"],
        "thorough": ["C14.mix4"],
        "bounds": "every arrangement of three (thorough: four) directives of six kinds, valid or not, with symbolic amounts; every kind "
                  "of directive; every shape of posting; lots sold under three methods; any two other requests in between; five seeds "
                  "of the hash tables",
    },
    "C15": {
        "quick": ["C15.file", "C15.params", "C15.forms", "C15.wide"],
        "bounds": "numbers at each of eleven places, from a beanfile and from parameters: any digits in six shapes of up to nine digits and "
                  "six decimals, either sign where allowed; zeros and trailing zeros; seven other ways of writing a number; up to 28 digits "
                  "(20 in costs, prices and tolerances) with any digit at each place",
        "outside": "more than 28 significant digits",
    },
    "C16": {
        "quick": ["C16.values", "C16.posting", "C16.custom", "C16.strings", "C16:many.texts"],
        "bounds": "metadata and custom values of every type on directives and postings, from a beanfile and from parameters, with "
                  "symbolic contents; up to two values per custom directive; texts like other types and texts needing escapes",
    },
    "C17": {
        "quick": ["C17.ids", "C17.methods", "C17.sequence", "C17.corrupt", "C17.params", "C17.bytes", "C17.ends", "C17.ledger",
                  "C17.around", "C17.many", "C17.long", "C17.schedule"],
        "thorough": ["C17.sequence4"],
        "bounds": "ids of every JSON type with symbolic contents, integers of 64 bits; each method with right, missing, wrong and extra "
                  "parameters; every sequence of three (thorough: four) requests of seventeen kinds; a request with any one byte replaced by "
                  "any other or cut at any place; parameters with any one byte replaced; every line of up to three bytes out of the JSON "
                  "alphabet; every end of input; any byte before or after a request; up to 300 requests at once; lines of up to 70000 characters; input and output in pieces of 1, 2, 5, 7 or all bytes and with interruptions, in any schedule of three reads and two writes; a beanfile with any one byte replaced by any other",
        "outside": "ids beyond 64 bits",
    },
    "C18": {
        "quick": ["C18.kinds", "C18.txn", "C18.any", "C18.synthetic", "C18.include", "C18.format", "C18.errors", "C18.parse",
                  "C18.fsynth", "C18.many", "C18.again"],
        "thorough": ["C18.synthetic3"],
        "bounds": "every kind of directive and shape of posting with symbolic texts, after comments with any character, options, blank lines or "
                  "texts of several lines, before comments and blanks; from the beanfile or an included file; any span with ends up to 39 in three sources; "
                  "two (thorough: three) synthetic fragments of five forms, symbolic characters among them, under three names; up to 130 directives and 40 fragments resolved in four orders and again; reports at every "
                  "directive and posting with symbolic texts and every combination of context, related places and annotation; reports of six booking "
                  "errors and six parsing errors sent back",
    },
    "C19": {
        "quick": ["C19.each", "C19.pairs", "C19.triples", "C19.many", "C19.bad", "C19.plugins", "C19.names", "C19.lots", "C19.include",
                  "C01.mult", "C08.mult", "C08.default", "C11.method"],
        "bounds": "each of twenty-four options or none, with any contents of its kind, before or after directives; any two and three of twelve; "
                  "those which may repeat up to three times; up to three plugins with and without configuration; included files; "
                  "seventeen kinds of wrong option; what names, tolerances and booking methods do to a ledger",
        "outside": "names and currencies are every one of a set, as the program hashes them",
    },
    "C20": {
        "quick": ["C20.kinds", "C20.text", "C20.txn", "C20.posting", "C20.cost", "C20.names", "C20.dates", "C20.order", "C20.meta",
                  "C20:C05.seq", "C20:C06.seq", "C20:C07.txn", "C20:C07.other", "C20:C09.auto", "C20:C10.price", "C20:C10.mixed",
                  "C20:C11.spec", "C20:C25.text", "C20:many.errors", "C20:many.txns", "C20:many.posts", "C20:many.lots",
                  "C20:many.texts", "C20:any.balance", "C20:any.free"],
        "bounds": "every kind of directive with symbolic fields; texts as in C12; every combination of the parts of a transaction, a posting, "
                  "a cost and a price; symbolic account and currency names of three shapes; any date of several years; symbolic dates in "
                  "every file order",
    },
}

PLANS["C21"] = {
    "quick": ["C21.config", "C21.args", "C21.bytes", "C21.flags", "C21.fail", "C21.long", "C21.health"],
    "thorough": ["C21.args4"],
    "bounds": "every combination of the three settings with symbolic contents of one or two characters; up to three (thorough: four) "
              "arguments of up to two symbolic characters each; arguments of arbitrary bytes; 70 arguments and 5000 characters; the launcher's own flags at every place; no program found",
    "outside": "settings which are not UTF-8; a jar fixed when the launcher was built; systems other than Unix",
}
PLANS["C22"] = {
    "quick": ["C22.grid", "C22.column", "C22.text", "C22.numbers", "C22.nest", "C22.mixed", "C22.bad", "C22.corrupt",
                  "C22.around", "C22.many", "C22.control", "C22.schedule"],
    "thorough": ["C22.grid3", "C22.wide"],
    "bounds": "two rows of two cells (thorough: three by two and two by three) of every kind and alignment with symbolic contents of up to three characters, "
              "two gutters, rows of unequal length; columns of up to three; numbers of up to three digits either side of the point; six ways of nesting; "
              "wide and accented characters; tables of up to 130 rows, 40 columns, 90 characters and 20 levels; control characters; any byte before or after a cell; input and output in pieces and with interruptions; twenty-six inputs that are no cells; two cells with any byte replaced or cut anywhere",
    "outside": "alignment beyond the end of the text",
}

PLANS["C25"] = {
    "quick": ["C25.seq", "C25.text", "C25.amounts", "C25.pad", "C25:C05.seq", "C25:C03.chain", "C25:C03.currency",
                  "C25:C02.subtree", "C25:C02.cost", "C25:many.failing", "C25:many.txns"],
    "thorough": ["C25.seq4"],
    "bounds": "every sequence of three (thorough four) transactions and balances over three accounts and two currencies, the last two digits of each amount symbolic, "
              "and then a failing balance; three-digit amounts of either sign and up to four digits after the point; payee and narration absent, empty or with any "
              "character; a pad on the account, a sub-account or from one of three sources",
    "outside": "longer histories; texts too wide for the report; how the lines are laid out in columns",
}

PLANS["C26"] = {
    "quick": ["C26.amount", "C26.units"],
    "bounds": "one posting whose price or cost, per unit or in total, has no amount, or which has no units, among one to three other postings; "
              "symbolic amounts of either sign and up to two digits after the point; units whose quotient terminates and, in steps, ones where it does not",
    "outside": "more than one missing part; compound costs",
}

PLANS["C27"] = {
    "quick": ["C27.clojure", "C27.java", "C27.which", "C27.none", "C27.text", "C27.jar"],
    "bounds": "every combination of the three settings; any exit status 0 to 255 of the program asked; versions of two symbolic characters, of several lines, of none, "
              "of 5000 characters, and not in UTF-8; jars which are there, are not, are directories, or lie below a file; jars by any name of one symbolic character and around it; "
              "no program found",
    "outside": "programs ended by a signal; a jar which may not be looked at; the wording of the report",
}

PLANS["C28"] = {
    "quick": ["C28.each", "C28.two", "C28.broken", "C28.corrupt", "C28.include", "C28.unread", "C28.options"],
    "bounds": "26 kinds of lines which are not Beancount, one or two of them among valid ones with symbolic texts; lines with a month, a day, a letter or a digit symbolic; "
              "any character of three kinds of lines replaced by any printable one; in the beanfile or an included one; the five requests about the ledger in five orders; "
              "beanfiles which are missing, are directories or hold any byte which is not UTF-8, or include such",
    "outside": "errors on lines which follow one another without anything valid between them; which messages the parser gives",
}

# what the scenarios lent among properties add
LENT = ("; also the ledgers of the scenarios named P:Q, among them long ones (many.*): 70 errors, 65 transactions, 33 postings, 12 lots, "
        "40 accounts, 20 levels, 20 currencies, 17 pads, texts of 130 characters, 40 tags")
for _p in PLANS.values():
    if any(":" in x for x in _p["quick"]):
        _p["bounds"] += LENT

TECHNIQUE = "symbolic execution of the program's LLVM IR with SMT (z3) against an executable specification"
NOTE = ("Every value within the bounds: the compiled server is executed symbolically from its start to its exit on symbolic "
        "input, each answer is compared with a specification written independently of it, and z3 decides every branch and "
        "assertion; counterexamples are replayed on the native binary before they are reported, and sampled paths are "
        "replayed too. Trusted: rustc, the executor, z3, the model of the operating system.")

CLJ = ("the property is about the Clojure front end: no symbolic executor for Clojure or its bytecode is available here, nor Clojure itself or its "
       "dependencies to build it")
NOT_APPLICABLE = {"C23": CLJ, "C24": CLJ}
