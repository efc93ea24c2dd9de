package main

// unprivileged lists the properties whose checks let the code under test create files.
var unprivileged = map[string]bool{"C14": true, "C17": true, "C19": true, "C20": true}

func levelOf(prop string) string {
	if prop == "C17" {
		return "fault_enumeration"
	}
	return "exploration"
}

func exhaustiveOf(prop string) bool { return false }

func assumptionsOf(prop string) []string {
	a := []string{
		"rapid v1.3.0 generates and shrinks correctly; the oracles in /verif/harness state the property correctly",
		"only generated inputs are judged; DESIGN.md lists the domain and what is excluded from it",
	}
	return append(a, extraAssumptions[prop]...)
}

var extraAssumptions = map[string][]string{}
