id='c22-second-alias'; prop='C22'
needs='a setting with an alias, given by its own variable with the documented default and by its alias with another value, after a program sets it'
breaks='setting a value from the program does not reach the aliases, whose environment value wins over it when it equals the default'
edits=[('internal/config/viper_config.go','	for _, alias := range config.GetAliases() {\n		viper.Set(alias, value)\n	}','	if value != config.GetDefault() {\n		for _, alias := range config.GetAliases() {\n			viper.Set(alias, value)\n		}\n	}')]
demo='''
package zdemo

import (
	"testing"

	"github.com/takenet/deckard/internal/config"
)

func TestDemo(t *testing.T) {
	t.Setenv("DECKARD_MONGODB_DATABASE", "other")
	config.Configure(true)
	defer config.Configure(true)
	if v := config.MongoDatabase.Get(); v != "other" {
		t.Fatal(v)
	}
	config.MongoDatabase.Set("deckard")
	if v := config.MongoDatabase.Get(); v != "deckard" {
		t.Fatal("set to deckard, reads ", v)
	}
}
'''
