id='c36-keeper-routes'; prop='C36'
needs="the housekeeper deployed on its own together with its service, and a call through that service"
breaks="the housekeeper's service selects the pods of the main deployment instead of the housekeeper's, so it never reaches the housekeeper"
edits=[('helm/templates/housekeeper-service.yaml','''    {{- include "deckard.housekeeper.selectorLabels" . | nindent 4 }}''','''    {{- include "deckard.selectorLabels" . | nindent 4 }}''')]
chart=True
demo='''
package zdemo

import "testing"

func TestDemo(t *testing.T) {
	objs, err := rendered(t, "prod", dict{})
	if err != nil {
		t.Fatal(err)
	}
	names := []string{"prod-deckard", "prod-deckard-housekeeper"}
	for _, s := range names {
		for _, d := range names {
			sel, _ := at(object(t, objs, "Service", s), "spec", "selector").(dict)
			labels, _ := at(object(t, objs, "Deployment", d), "spec", "template", "metadata", "labels").(dict)
			all := len(sel) > 0
			for k, v := range sel {
				all = all && labels[k] == v
			}
			if all != (s == d) {
				t.Errorf("service %s reaches the pods of %s: %v", s, d, all)
			}
		}
	}
}
'''
