package main

import hangul "github.com/suapapa/go_hangul"

// name, value and documented Unicode name of every exported constant
var constants = []struct {
	Name    string
	Value   int64
	Unicode string
}{
	{"G", int64(hangul.G), "HANGUL LETTER KIYEOK"},
	{"GG", int64(hangul.GG), "HANGUL LETTER SSANGKIYEOK"},
	{"GS", int64(hangul.GS), "HANGUL LETTER KIYEOK-SIOS"},
	{"N", int64(hangul.N), "HANGUL LETTER NIEUN"},
	{"NJ", int64(hangul.NJ), "HANGUL LETTER NIEUN-CIEUC"},
	{"NH", int64(hangul.NH), "HANGUL LETTER NIEUN-HIEUH"},
	{"D", int64(hangul.D), "HANGUL LETTER TIKEUT"},
	{"DD", int64(hangul.DD), "HANGUL LETTER SSANGTIKEUT"},
	{"L", int64(hangul.L), "HANGUL LETTER RIEUL"},
	{"LG", int64(hangul.LG), "HANGUL LETTER RIEUL-KIYEOK"},
	{"LM", int64(hangul.LM), "HANGUL LETTER RIEUL-MIEUM"},
	{"LB", int64(hangul.LB), "HANGUL LETTER RIEUL-PIEUP"},
	{"LS", int64(hangul.LS), "HANGUL LETTER RIEUL-SIOS"},
	{"LT", int64(hangul.LT), "HANGUL LETTER RIEUL-THIEUTH"},
	{"LP", int64(hangul.LP), "HANGUL LETTER RIEUL-PHIEUPH"},
	{"LH", int64(hangul.LH), "HANGUL LETTER RIEUL-HIEUH"},
	{"M", int64(hangul.M), "HANGUL LETTER MIEUM"},
	{"B", int64(hangul.B), "HANGUL LETTER PIEUP"},
	{"BB", int64(hangul.BB), "HANGUL LETTER SSANGPIEUP"},
	{"BS", int64(hangul.BS), "HANGUL LETTER PIEUP-SIOS"},
	{"S", int64(hangul.S), "HANGUL LETTER SIOS"},
	{"SS", int64(hangul.SS), "HANGUL LETTER SSANGSIOS"},
	{"ZS", int64(hangul.ZS), "HANGUL LETTER IEUNG"},
	{"J", int64(hangul.J), "HANGUL LETTER CIEUC"},
	{"JJ", int64(hangul.JJ), "HANGUL LETTER SSANGCIEUC"},
	{"C", int64(hangul.C), "HANGUL LETTER CHIEUCH"},
	{"K", int64(hangul.K), "HANGUL LETTER KHIEUKH"},
	{"T", int64(hangul.T), "HANGUL LETTER THIEUTH"},
	{"P", int64(hangul.P), "HANGUL LETTER PHIEUPH"},
	{"H", int64(hangul.H), "HANGUL LETTER HIEUH"},
	{"A", int64(hangul.A), "HANGUL LETTER A"},
	{"AE", int64(hangul.AE), "HANGUL LETTER AE"},
	{"YA", int64(hangul.YA), "HANGUL LETTER YA"},
	{"YAE", int64(hangul.YAE), "HANGUL LETTER YAE"},
	{"EO", int64(hangul.EO), "HANGUL LETTER EO"},
	{"E", int64(hangul.E), "HANGUL LETTER E"},
	{"YEO", int64(hangul.YEO), "HANGUL LETTER YEO"},
	{"YE", int64(hangul.YE), "HANGUL LETTER YE"},
	{"O", int64(hangul.O), "HANGUL LETTER O"},
	{"WA", int64(hangul.WA), "HANGUL LETTER WA"},
	{"WAE", int64(hangul.WAE), "HANGUL LETTER WAE"},
	{"OE", int64(hangul.OE), "HANGUL LETTER OE"},
	{"YO", int64(hangul.YO), "HANGUL LETTER YO"},
	{"U", int64(hangul.U), "HANGUL LETTER U"},
	{"WEO", int64(hangul.WEO), "HANGUL LETTER WEO"},
	{"WE", int64(hangul.WE), "HANGUL LETTER WE"},
	{"WI", int64(hangul.WI), "HANGUL LETTER WI"},
	{"YU", int64(hangul.YU), "HANGUL LETTER YU"},
	{"EU", int64(hangul.EU), "HANGUL LETTER EU"},
	{"YI", int64(hangul.YI), "HANGUL LETTER YI"},
	{"I", int64(hangul.I), "HANGUL LETTER I"},
	{"LeadG", int64(hangul.LeadG), "HANGUL CHOSEONG KIYEOK"},
	{"LeadGG", int64(hangul.LeadGG), "HANGUL CHOSEONG SSANGKIYEOK"},
	{"LeadN", int64(hangul.LeadN), "HANGUL CHOSEONG NIEUN"},
	{"LeadD", int64(hangul.LeadD), "HANGUL CHOSEONG TIKEUT"},
	{"LeadDD", int64(hangul.LeadDD), "HANGUL CHOSEONG SSANGTIKEUT"},
	{"LeadR", int64(hangul.LeadR), "HANGUL CHOSEONG RIEUL"},
	{"LeadM", int64(hangul.LeadM), "HANGUL CHOSEONG MIEUM"},
	{"LeadB", int64(hangul.LeadB), "HANGUL CHOSEONG PIEUP"},
	{"LeadBB", int64(hangul.LeadBB), "HANGUL CHOSEONG SSANGPIEUP"},
	{"LeadS", int64(hangul.LeadS), "HANGUL CHOSEONG SIOS"},
	{"LeadSS", int64(hangul.LeadSS), "HANGUL CHOSEONG SSANGSIOS"},
	{"LeadZS", int64(hangul.LeadZS), "HANGUL CHOSEONG IEUNG"},
	{"LeadJ", int64(hangul.LeadJ), "HANGUL CHOSEONG CIEUC"},
	{"LeadJJ", int64(hangul.LeadJJ), "HANGUL CHOSEONG SSANGCIEUC"},
	{"LeadC", int64(hangul.LeadC), "HANGUL CHOSEONG CHIEUCH"},
	{"LeadK", int64(hangul.LeadK), "HANGUL CHOSEONG KHIEUKH"},
	{"LeadT", int64(hangul.LeadT), "HANGUL CHOSEONG THIEUTH"},
	{"LeadP", int64(hangul.LeadP), "HANGUL CHOSEONG PHIEUPH"},
	{"LeadH", int64(hangul.LeadH), "HANGUL CHOSEONG HIEUH"},
	{"MedialA", int64(hangul.MedialA), "HANGUL JUNGSEONG A"},
	{"MedialAE", int64(hangul.MedialAE), "HANGUL JUNGSEONG AE"},
	{"MedialYA", int64(hangul.MedialYA), "HANGUL JUNGSEONG YA"},
	{"MedialYAE", int64(hangul.MedialYAE), "HANGUL JUNGSEONG YAE"},
	{"MedialEO", int64(hangul.MedialEO), "HANGUL JUNGSEONG EO"},
	{"MedialE", int64(hangul.MedialE), "HANGUL JUNGSEONG E"},
	{"MedialYEO", int64(hangul.MedialYEO), "HANGUL JUNGSEONG YEO"},
	{"MedialYE", int64(hangul.MedialYE), "HANGUL JUNGSEONG YE"},
	{"MedialO", int64(hangul.MedialO), "HANGUL JUNGSEONG O"},
	{"MedialWA", int64(hangul.MedialWA), "HANGUL JUNGSEONG WA"},
	{"MedialWAE", int64(hangul.MedialWAE), "HANGUL JUNGSEONG WAE"},
	{"MedialOE", int64(hangul.MedialOE), "HANGUL JUNGSEONG OE"},
	{"MedialYO", int64(hangul.MedialYO), "HANGUL JUNGSEONG YO"},
	{"MedialU", int64(hangul.MedialU), "HANGUL JUNGSEONG U"},
	{"MedialWEO", int64(hangul.MedialWEO), "HANGUL JUNGSEONG WEO"},
	{"MedialWE", int64(hangul.MedialWE), "HANGUL JUNGSEONG WE"},
	{"MedialWI", int64(hangul.MedialWI), "HANGUL JUNGSEONG WI"},
	{"MedialYU", int64(hangul.MedialYU), "HANGUL JUNGSEONG YU"},
	{"MedialEU", int64(hangul.MedialEU), "HANGUL JUNGSEONG EU"},
	{"MedialYI", int64(hangul.MedialYI), "HANGUL JUNGSEONG YI"},
	{"MedialI", int64(hangul.MedialI), "HANGUL JUNGSEONG I"},
	{"TailG", int64(hangul.TailG), "HANGUL JONGSEONG KIYEOK"},
	{"TailGG", int64(hangul.TailGG), "HANGUL JONGSEONG SSANGKIYEOK"},
	{"TailGS", int64(hangul.TailGS), "HANGUL JONGSEONG KIYEOK-SIOS"},
	{"TailN", int64(hangul.TailN), "HANGUL JONGSEONG NIEUN"},
	{"TailNJ", int64(hangul.TailNJ), "HANGUL JONGSEONG NIEUN-CIEUC"},
	{"TailNH", int64(hangul.TailNH), "HANGUL JONGSEONG NIEUN-HIEUH"},
	{"TailD", int64(hangul.TailD), "HANGUL JONGSEONG TIKEUT"},
	{"TailL", int64(hangul.TailL), "HANGUL JONGSEONG RIEUL"},
	{"TailLG", int64(hangul.TailLG), "HANGUL JONGSEONG RIEUL-KIYEOK"},
	{"TailLM", int64(hangul.TailLM), "HANGUL JONGSEONG RIEUL-MIEUM"},
	{"TailLB", int64(hangul.TailLB), "HANGUL JONGSEONG RIEUL-PIEUP"},
	{"TailLS", int64(hangul.TailLS), "HANGUL JONGSEONG RIEUL-SIOS"},
	{"TailLT", int64(hangul.TailLT), "HANGUL JONGSEONG RIEUL-THIEUTH"},
	{"TailLP", int64(hangul.TailLP), "HANGUL JONGSEONG RIEUL-PHIEUPH"},
	{"TailLH", int64(hangul.TailLH), "HANGUL JONGSEONG RIEUL-HIEUH"},
	{"TailM", int64(hangul.TailM), "HANGUL JONGSEONG MIEUM"},
	{"TailB", int64(hangul.TailB), "HANGUL JONGSEONG PIEUP"},
	{"TailBS", int64(hangul.TailBS), "HANGUL JONGSEONG PIEUP-SIOS"},
	{"TailS", int64(hangul.TailS), "HANGUL JONGSEONG SIOS"},
	{"TailSS", int64(hangul.TailSS), "HANGUL JONGSEONG SSANGSIOS"},
	{"TailNG", int64(hangul.TailNG), "HANGUL JONGSEONG IEUNG"},
	{"TailJ", int64(hangul.TailJ), "HANGUL JONGSEONG CIEUC"},
	{"TailC", int64(hangul.TailC), "HANGUL JONGSEONG CHIEUCH"},
	{"TailK", int64(hangul.TailK), "HANGUL JONGSEONG KHIEUKH"},
	{"TailT", int64(hangul.TailT), "HANGUL JONGSEONG THIEUTH"},
	{"TailP", int64(hangul.TailP), "HANGUL JONGSEONG PHIEUPH"},
	{"TailH", int64(hangul.TailH), "HANGUL JONGSEONG HIEUH"},
	{"NG", int64(hangul.NG), "HANGUL LETTER IEUNG"},
}
