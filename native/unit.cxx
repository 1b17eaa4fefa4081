// Evaluates functions of k8psh on inputs read from stdin, one per line, and prints one line for each:
//   N path                           normalizePath
//   R parent path                    relativizePath
//   B path / P path                  getBasename / getParentDirectory
//   A path                           isAbsolutePath (prints 1 or 0)
//   S text                           substituteEnvironmentVariables
//   E n (name value)*n               replaces the environment
//   C work text n host*n             Configuration::load and everything it holds
// Arguments are hexadecimal (- for an empty one); results are "=" and hexadecimal words, or "!" for an exception.
#include "Configuration.cxx"
#include "Utilities.cxx"

#include <cstdlib>
#include <cstdio>
#include <iostream>
#include <string>
#include <vector>

static std::string unhex(const std::string &s)
{
	std::string r;
	for (std::size_t i = 0; s != "-" && i + 1 < s.size(); i += 2)
		r += char(std::stoi(s.substr(i, 2), nullptr, 16));
	return r;
}

static std::string hex(const std::string &s)
{
	static const char *d = "0123456789abcdef";
	std::string r;
	for (unsigned char c : s)
		(r += d[c >> 4]) += d[c & 15];
	return r.empty() ? "-" : r;
}

static void words(std::string &out, const std::vector<std::string> &v)
{
	out += " " + std::to_string(v.size());
	for (const auto &x : v)
		out += " " + hex(x);
}

static void command(std::string &out, const std::string &key, const k8psh::Configuration::Command &c)
{
	out += " " + hex(key) + " " + hex(c.getName()) + " " + hex(c.getHost().getHostname()) + " " + std::to_string(c.getHost().getPort());
	words(out, c.getHost().getOptions());
	words(out, c.getExecutable());
	std::vector<std::string> env;
	for (const auto &e : c.getEnvironmentVariables())
	{
		env.push_back(e.first);
		env.push_back(e.second);
	}
	words(out, env);
}

int main()
{
	std::ios::sync_with_stdio(false);
	std::string line;
	while (std::getline(std::cin, line))
	{
		std::vector<std::string> w;
		for (std::size_t i = 0; i < line.size();)
		{
			std::size_t e = line.find(' ', i);
			w.push_back(line.substr(i, e == std::string::npos ? e : e - i));
			i = e == std::string::npos ? line.size() : e + 1;
		}
		std::string out;
		try
		{
			typedef k8psh::Utilities U;
			switch (w[0][0])
			{
			case 'N': out = "= " + hex(U::normalizePath(unhex(w[1]))); break;
			case 'R': out = "= " + hex(U::relativizePath(unhex(w[1]), unhex(w[2]))); break;
			case 'B': out = "= " + hex(U::getBasename(unhex(w[1]))); break;
			case 'P': out = "= " + hex(U::getParentDirectory(unhex(w[1]))); break;
			case 'A': out = std::string("= ") + (U::isAbsolutePath(unhex(w[1])) ? "31" : "30"); break;
			case 'S': out = "= " + hex(U::substituteEnvironmentVariables(unhex(w[1]))); break;
			case 'E':
				clearenv();
				for (std::size_t i = 2; i + 1 < w.size(); i += 2)
					setenv(unhex(w[i]).c_str(), unhex(w[i + 1]).c_str(), 1);
				out = "=";
				break;
			case 'C':
			{
				const auto c = k8psh::Configuration::load(unhex(w[2]), unhex(w[1]));
				out = "= " + hex(c.getBaseDirectory()) + " " + std::to_string(c.getConnectTimeoutMs()) + " " + std::to_string(c.getCommands().size());
				for (const auto &x : c.getCommands())
					command(out, x.first, x.second);
				for (std::size_t i = 4; i < w.size(); i++)
				{
					const auto m = c.getCommands(unhex(w[i]));
					out += m ? " " + std::to_string(m->size()) : " -1";
					if (m)
						for (const auto &x : *m)
							command(out, x.first, x.second);
				}
				break;
			}
			default: return 3;
			}
		}
		catch (const std::exception &)
		{
			out = "!";
		}
		std::cout << out << '\n' << std::flush;
	}
}
