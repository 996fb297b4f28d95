package main

// Property is what the driver has to know about a property.
type Property struct {
	Level       string
	Rule        string
	Assumptions []string
	MustSee     []string
	Cases       func(tier string, rng *Rng) []Case
}

var properties = map[string]Property{}

func register(id string, p Property) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	properties[id] = p
}

func casesOf(prop, tier string, seed uint64) []Case {
	p, ok := properties[prop]
	if !ok {
		return nil
	}
	return p.Cases(tier, NewRng(seed, hashString("cases"), hashString(prop)))
}

func thorough(tier string) bool { return tier == "thorough" }

// pickN is the number of cases by tier.
func pickN(tier string, quick, deep int) int {
	if thorough(tier) {
		return deep
	}
	return quick
}
