// Writes generated cases to a file: texts (length-prefixed) or value bits.
//   gencases --kind text|double|float --count N --seed S --file F   | --kind corpus --dir D (one file per case)
#include "gen.hpp"
using namespace vk;
u64 ref::oracle_disagreements = 0;
int main(int argc, char** argv)
{
	parse_args(argc, argv);
	auto& x = opt().extra; const u64 n = std::strtoull(x["--count"].c_str(), nullptr, 10);
	Rng r(opt().seed * 7919 + 13);
	const std::string kind = x["--kind"];
	FILE* f = kind.compare(0, 6, "corpus") ? std::fopen(x["--file"].c_str(), "wb") : nullptr;
	for (u64 i = 0; i < n; ++i)
	{
		if (kind == "text")
		{
			std::string t = (i & 1) ? gen::text<double>(r) : gen::text<float>(r);
			if (r.chance(60)) t += std::string(r.below(4000), char('0' + r.below(10)));
			const u32 l = u32(t.size()); std::fwrite(&l, 4, 1, f); std::fwrite(t.data(), 1, l, f);
		}
		else if (kind == "value")
		{
			const u64 d = to_bits(gen::value<double>(r, true)); const u32 s = to_bits(gen::value<float>(r, true));
			std::fwrite(&d, 8, 1, f); std::fwrite(&s, 4, 1, f);
		}
		else
		{
			std::string t;
			if (kind == "corpus_value") { const double d = gen::value<double>(r, true); t.assign(reinterpret_cast<const char*>(&d), 8); if (i & 1) { const float s = gen::value<float>(r, true); std::memcpy(&t[0], &s, 4); } }
			else { if (kind == "corpus_tagged") t += char(r.below(4)); std::string q = (i & 1) ? gen::text<double>(r) : gen::text<float>(r); if (q.size() > 190) q.resize(190); t += q; }
			FILE* c = std::fopen((opt().dir + "/seed" + std::to_string(i)).c_str(), "wb"); if (!c) return 2;
			std::fwrite(t.data(), 1, t.size(), c); std::fclose(c);
		}
	}
	if (f) std::fclose(f);
	return 0;
}
