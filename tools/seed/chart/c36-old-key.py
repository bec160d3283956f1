id='c36-old-key'; prop='C36'
needs="an external back end whose secret is named by the deprecated connectionSecret.cache while a key of its own is set there, and the scoped secret left alone"
breaks="the container is told to read the connection string under the chart's default key of the old secret, which has none there, so the pods never start"
edits=[('helm/templates/_helpers.tpl','''{{- $defaultSecretKey := "cache-uri" -}}
{{- if and $legacySecretKey (eq $secretKey $defaultSecretKey) (ne $legacySecretKey $defaultSecretKey) -}}''','''{{- $defaultSecretKey := "cache-uri" -}}
{{- if and $legacySecretKey (eq $secretKey "") (ne $legacySecretKey $defaultSecretKey) -}}''')]
chart=True
demo='''
package zdemo

import "testing"

func TestDemo(t *testing.T) {
	for _, end := range []string{"cache", "storage"} {
		objs, err := rendered(t, "prod", dict{"redis": dict{"enabled": false}, "mongodb": dict{"enabled": false}, "connectionSecret": dict{
			"cache":   dict{"existingSecret": "old-cache", "key": "address"},
			"storage": dict{"existingSecret": "old-storage", "key": "address"}}})
		if err != nil {
			t.Fatal(err)
		}
		want := "old-" + end + "/address"
		name := map[string]string{"cache": "DECKARD_CACHE_URI", "storage": "DECKARD_STORAGE_URI"}[end]
		for _, d := range []string{"prod-deckard", "prod-deckard-housekeeper"} {
			if got := env(object(t, objs, "Deployment", d))[name]; got != want {
				t.Errorf("%s of %s comes from %v, the values say %s", name, d, got, want)
			}
		}
	}
}
'''
