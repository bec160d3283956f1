id='c29-glob-class'; prop='C29'; fakes=False
needs='a pattern with a character class or a question mark and a name whose match depends on it, plus a star elsewhere'
breaks='patterns that start and end with a star are decided by a plain substring search, so classes and question marks inside are taken literally'
edits=[('internal/queue/utils/glob_pattern.go','''	matcher := glob''','''	if len(pattern) > 2 && pattern[0] == '*' && pattern[len(pattern)-1] == '*' && !strings.Contains(pattern[1:len(pattern)-1], "*") {
		return strings.Contains(value, pattern[1:len(pattern)-1])
	}

	matcher := glob'''),('internal/queue/utils/glob_pattern.go','import "github.com/gobwas/glob"','import (\n\t"strings"\n\n\t"github.com/gobwas/glob"\n)')]
demo='''
package zdemo

import (
	"testing"

	"github.com/takenet/deckard/internal/queue/utils"
)

func TestDemo(t *testing.T) {
	if !utils.MatchGlob("xaby", "*a?*") || !utils.MatchGlob("xab", "*[ab]*") || utils.MatchGlob("xcd", "*[ab]*") {
		t.Fatal("glob with a class between stars is not decided by its definition")
	}
}
'''
