// Package props holds one exploration per property.
package props

import "verif/mc"

// P is a property's exploration.
type P struct {
	ID     string
	Mode   string // build mode: fuel, sched or race
	Rule   string // how cases are made
	Single bool   // not sharded
	Assume []string
	Run    func(c *mc.C)
}

var all []*P

func reg(p *P) {
	if p.Mode == "" {
		p.Mode = "fuel"
	}
	all = append(all, p)
}

// All lists the properties.
func All() []*P { return all }

// Get finds one.
func Get(id string) *P {
	for _, p := range all {
		if p.ID == id {
			return p
		}
	}
	return nil
}
