id='c36-keeper-flag'; prop='C36'
needs="the separate housekeeper deployment switched off and housekeeper.self.enabled on, the way the README describes a single pod"
breaks="the main deployment's housekeeping follows the separate deployment's setting, so nobody does the housekeeping: expired deadlines never return to their queues"
edits=[('helm/templates/deployment.yaml','''              value: {{ quote .Values.housekeeper.self.enabled }}''','''              value: {{ and .Values.housekeeper.self.enabled .Values.housekeeper.enabled | quote }}''')]
chart=True
demo='''
package zdemo

import "testing"

func TestDemo(t *testing.T) {
	for _, self := range []bool{false, true} {
		for _, own := range []bool{false, true} {
			objs, err := rendered(t, "prod", dict{"housekeeper": dict{"enabled": own, "self": dict{"enabled": self}}})
			if err != nil {
				t.Fatal(err)
			}
			want := map[bool]string{false: "false", true: "true"}[self]
			if got := env(object(t, objs, "Deployment", "prod-deckard"))["DECKARD_HOUSEKEEPER_ENABLED"]; got != want {
				t.Errorf("with housekeeper.self.enabled %v and housekeeper.enabled %v the main deployment gets %v", self, own, got)
			}
		}
	}
}
'''
