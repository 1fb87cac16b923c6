id = "c02-service-at"
prop = "C02"
edits = [("src/server/conf.c", "if ((at = strrchr(pattern, '@')) == NULL)", "if ((at = strchr(pattern, '@')) == NULL)")]
needs = "a services pattern with more than one @"
what = "`services' patterns are split at the first instead of the last @, so that services whose names contain an @ aren't authorized (and others are)"
demo = r'''
s = Server('authorize "*" { password = "forty-two" services = "mail@example@web" }')
p = Peer(s.port)
check(p.ok, "no session")
r = p.push("[1] PROCESS_SERVICE_CHECK_RESULT;web;mail@example;0;x\n")
check(r == "OKAY", "authorized check result refused: " + r)
r = p.push("[1] PROCESS_SERVICE_CHECK_RESULT;example@web;mail;0;x\n")
check(r.startswith("FAIL"), "unauthorized check result accepted: " + r)
'''
