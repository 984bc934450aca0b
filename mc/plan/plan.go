// Package plan lists the properties and how each one is run.
package plan

// Config is a build configuration of the code under test.
type Config struct {
	Name         string
	Tags         string   // build tags
	Env          []string // environment
	Race         bool     // with the race detector
	Conc         bool     // instrumented, under the controlled scheduler
	Shards       int      // 0: the number of CPUs
	ThoroughOnly bool
}

// Property is a property and its configurations.
type Property struct {
	ID      string
	Level   string
	Configs []Config
}

var std = []Config{{Name: "default"}}

// numeric adds the configurations which select other implementations of the
// vectorized functions.
var numeric = []Config{
	{Name: "default"},
	{Name: "noavx", Env: []string{"GODEBUG=cpu.avx=off,cpu.avx2=off"}},
	{Name: "purego", Tags: "purego noasm"},
}

// schedules are the configurations of the explorations of schedules.
var schedules = []Config{
	{Name: "cpu8", Conc: true, Env: []string{"VERIF_NUMCPU=8"}},
	{Name: "cpu1", Conc: true, Env: []string{"VERIF_NUMCPU=1"}},
	{Name: "race", Conc: true, Race: true, Env: []string{"VERIF_NUMCPU=8"}},
}

// wide are those which also explore executions with many goroutines.
var wide = append(schedules[:len(schedules):len(schedules)], Config{Name: "big", Conc: true, Tags: "vsbig", Env: []string{"VERIF_NUMCPU=8"}})

// uses are the configurations of the explorations of independent uses.
var uses = []Config{
	{Name: "plain", Conc: true, Tags: "vsbig", Env: []string{"VERIF_NUMCPU=512"}},
	{Name: "race", Conc: true, Race: true, Tags: "vsbig", Env: []string{"VERIF_NUMCPU=512"}},
}

// both is the exploration of schedules, and the one of inputs and histories.
var both = append([]Config{{Name: "default"}}, schedules...)

const (
	exploration = "exploration"
	modelCheck  = "model_checking"
	faults      = "fault_enumeration"
)

var props = []Property{
	{"E01", modelCheck, wide},
	{"E02", modelCheck, wide},
	{"E03", modelCheck, std},
	{"E04", modelCheck, schedules},
	{"E05", modelCheck, uses},
	{"N01", modelCheck, both},
	{"N02", modelCheck, both},
	{"N03", exploration, std},
	{"N04", exploration, std},
	{"N06", exploration, std},
	{"N07", exploration, std},
	{"N08", exploration, std},
	{"N10", exploration, std},
	{"N05", modelCheck, both},
	{"O01", modelCheck, std},
	{"O02", modelCheck, wide},
	{"O03", exploration, std},
	{"O04", exploration, std},
	{"O05", exploration, std},
	{"R01", modelCheck, both},
	{"R02", exploration, std},
	{"S01", exploration, std},
	{"S02", exploration, std},
	{"S03", faults, std},
	{"G01", exploration, std},
	{"G02", exploration, std},
	{"G03", exploration, std},
	{"G04", exploration, numeric},
	{"G05", exploration, std},
	{"M01", exploration, numeric},
	{"M02", exploration, numeric},
	{"M03", exploration, std},
	{"M04", modelCheck, std},
	{"M05", exploration, std},
	{"M06", exploration, std},
	{"M07", exploration, std},
}

// Find returns a property.
func Find(id string) (Property, bool) {
	for _, p := range props {
		if p.ID == id {
			return p, true
		}
	}
	return Property{}, false
}
