"""The definitions zk-regex publishes, as this framework understands them: extraction and shipped circuits are checked against these."""
H, P = False, True
HEAD = "(\r\n|^)%s:"
LOCAL = "[A-Za-z0-9!#$%&'*+=?\\-\\^_`{|}~./]+@"

DEFS = {
    "email_addr": [(P, "[A-Za-z0-9!#$%&'*+=?\\-\\^_`{|}~./@]+@[A-Za-z0-9.\\-]+")],
    "email_domain": [(H, LOCAL), (P, "[A-Za-z0-9.\\-@]+")],
    "from_all": [(H, HEAD % "from"), (P, "[^\r\n]+"), (H, "\r\n")],
    "from_addr": [(H, HEAD % "from"), (H, "([^\r\n]+<)?"), (P, "[^<>]+"), (H, ">?\r\n")],
    "to_all": [(H, HEAD % "to"), (P, "[^\r\n]+"), (H, "\r\n")],
    "to_addr": [(H, HEAD % "to"), (H, "([^\r\n]+<)?"), (P, "[^<>]+"), (H, ">?\r\n")],
    "subject_all": [(H, HEAD % "subject"), (P, "[^\r\n]+"), (H, "\r\n")],
    "body_hash": [(H, HEAD % "dkim-signature"), (H, "([a-z]+=[^;]+; )+bh="), (P, "[a-zA-Z0-9+/=]+"), (H, ";")],
    "timestamp": [(H, HEAD % "dkim-signature"), (H, "([a-z]+=[^;]+; )+t="), (P, "[0-9]+"), (H, ";")],
    "message_id": [(H, HEAD % "message-id"), (P, "<[A-Za-z0-9=@\\.\\+_-]+>"), (H, "\r\n")],
}
# only as a circuit
REVERSED = {
    "reversed_bracket": [(H, ">"), (P, "[^<>]+"), (H, "<.*")],
    "reversed_email_addr_with_name": [(H, ">"), (P, r"[a-zA-Z0-9.\-]+@[A-Za-z0-9!#$%&'*+=?\-\^_`{|}~./@]+"), (H, "<.*")],
}

# the words headers are made of, by extractor
TOKENS = {
    "email_addr": ["a", "@", "Z9", ".", "-b", " ", "é", "<"],
    "email_domain": ["a", "@", "Z9", ".", "-b", " ", "!", "é"],
    "from_all": ["from:", "\r\n", "a", "to:", "\r", "\n", "é"],
    "from_addr": ["from:", "\r\n", "a", "<", ">", "b@c", "xfrom:"],
    "to_all": ["to:", "\r\n", "a", "from:", "\r", "\n", "é"],
    "to_addr": ["to:", "\r\n", "a", "<", ">", "b@c", "reply-to:"],
    "subject_all": ["subject:", "\r\n", "a", "from:", "\r", "\n", "é"],
    "body_hash": ["dkim-signature:", "v=1; ", "bh=", "aB0+/=", ";", " ", "\r\n", "x"],
    "timestamp": ["dkim-signature:", "v=1; ", "t=", "09", ";", " ", "\r\n", "x"],
    "message_id": ["message-id:", "<", "a@b", ">", "\r\n", "._-+=", "x:"],
}
JSNAME = {k: "extract" + "".join(x.capitalize() for x in k.split("_")) + "Idxes" for k in DEFS}
