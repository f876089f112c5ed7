// Package scen holds the workloads, fault plans and oracles.
package scen

import "verifsim/eng"

// Scenario is one workload family of a property.
type Scenario struct {
	Name   string
	Weight int
	// Fresh scenarios need a new process per episode (first-use state).
	Fresh bool
	Run   func(*eng.Ep)
}

// ByProperty lists the scenarios of every property.
var ByProperty = map[string][]Scenario{}

func register(prop string, s Scenario) {
	if s.Weight == 0 {
		s.Weight = 1
	}
	ByProperty[prop] = append(ByProperty[prop], s)
}

// Pick returns the scenario of an episode.
func Pick(prop string, seed uint64) *Scenario {
	l := ByProperty[prop]
	t := 0
	for _, s := range l {
		t += s.Weight
	}
	if t == 0 {
		return nil
	}
	k := int(eng.Mix(seed^0x5ce) % uint64(t))
	for i := range l {
		if k < l[i].Weight {
			return &l[i]
		}
		k -= l[i].Weight
	}
	return nil
}

// Find returns a scenario by name.
func Find(prop, name string) *Scenario {
	for i := range ByProperty[prop] {
		if ByProperty[prop][i].Name == name {
			return &ByProperty[prop][i]
		}
	}
	return nil
}
