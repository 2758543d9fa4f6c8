import argparse
import json
import os
import sys
from enum import Enum
from typing import Callable, Dict, List, Tuple

import urllib3

from aas_test_engines import api, config, file, http

# https://stackoverflow.com/questions/27981545
urllib3.disable_warnings(urllib3.exceptions.InsecureRequestWarning)


class InputFormats(str, Enum):
    xml = "xml"
    json = "json"
    aasx = "aasx"

    def __str__(self):
        return self.value


class OutputFormats(Enum):
    TEXT = "text"
    JSON = "json"
    HTML = "html"

    def show(self, result) -> None:
        match self:
            case OutputFormats.TEXT:
                result.dump()
            case OutputFormats.HTML:
                print(result.to_html())
            case OutputFormats.JSON:
                json.dump(result.to_dict(), sys.stdout)
                print()


commands: Dict[str, Callable[[List[str]], None]] = {}
_help: Dict[str, str] = {}


def command(name: str, text: str):
    def register(fn):
        commands[name] = fn
        _help[name] = text
        return fn

    return register


class _Parser(argparse.ArgumentParser):
    def enum(self, option: str, cls, default) -> None:
        self.add_argument(option, type=cls, default=default, choices=[*cls])


def _parse_header_value(s: str) -> Tuple[str, str]:
    key, sep, value = s.partition(":")
    if not sep:
        raise argparse.ArgumentTypeError(f"Invalid format for header:value: '{s}'")
    return key.strip(), value.strip()


def _report(result, output: OutputFormats) -> None:
    output.show(result)
    sys.exit(int(not result.ok()))


@command("check_file", "Check a file for compliance.")
def run_file_test(argv):
    parser = _Parser(description="Checks a file for compliance with the AAS meta-model")
    parser.add_argument("file", type=argparse.FileType("rb"), help="the file to check")
    parser.add_argument("--model_type", type=str, default="Environment", help="Check for a specific model type")
    parser.enum("--format", InputFormats, InputFormats.aasx)
    parser.enum("--output", OutputFormats, OutputFormats.TEXT)
    args = parser.parse_args(argv)

    if args.format is InputFormats.aasx and args.model_type != "Environment":
        raise Exception("Cannot set --model_type for --format aasx")
    check = {
        InputFormats.aasx: lambda: file.check_aasx_file(args.file),
        InputFormats.json: lambda: file.check_json_file(args.file, model_type=args.model_type),
        InputFormats.xml: lambda: file.check_xml_file(args.file, model_type=args.model_type),
    }[args.format]
    _report(check(), args.output)


def _die(title: str, items=()) -> None:
    print(title, *(f" - {i}" for i in items), sep="\n", file=sys.stderr)
    sys.exit(1)


@command("check_server", "Check a server instance for compliance.")
def run_api_test(argv):
    parser = _Parser(description="Checks a server instance for compliance with the AAS api")
    for name, text in (("server", "server to run the tests against"), ("suite", "test suite (or substring of it)")):
        parser.add_argument(name, type=str, help=text)
    parser.add_argument(
        "--header",
        nargs="+",
        default=[],
        type=_parse_header_value,
        help="Additional headers in the format header:value",
    )
    parser.add_argument("--dry", action="store_true", help="dry run, do not send requests")
    parser.add_argument("--version", type=str, default=api.latest_version())
    parser.add_argument("--no-verify", dest="verify", action="store_false", help="do not check TLS certificate")
    parser.add_argument("--filter", type=config.TestCaseFilter, default=None)
    parser.add_argument("--remove-path-prefix", type=str, default="", help="remove prefix from all paths")
    parser.enum("--output", OutputFormats, OutputFormats.TEXT)
    args = parser.parse_args(argv)

    versions = api.supported_versions()
    if args.version not in versions:
        _die(f"Unknown version, must be one of {versions.keys()}")
    available = versions[args.version]
    match [i for i in available if args.suite in i]:
        case []:
            _die(f"Unknown suite '{args.suite}', must be one of:", available)
        case [suite]:
            pass
        case several:
            _die(f"Substring '{args.suite}' is not unique, covers:", several)

    headers = {}
    for key, value in args.header:
        headers[key] = value
    client = http.HttpClient(args.server, args.verify, args.remove_path_prefix, headers)
    conf = config.CheckApiConfig(suite, args.version, args.dry, args.filter)
    result, _ = api.execute_tests(client, conf)
    _report(result, args.output)


@command("generate_files", "Generate files for testing")
def generate_files(argv):
    parser = _Parser(description="Generates aas files which can be used to test your software")
    parser.add_argument("directory", type=str, help="Directory to place files in")
    directory = parser.parse_args(argv).directory
    if os.path.exists(directory):
        print(f"Directory '{directory}' already exists, please remove it")
        sys.exit(1)
    os.mkdir(directory)
    for idx, (is_valid, sample) in enumerate(file.generate()):
        name = "{}_{}.json".format(idx, "valid" if is_valid else "invalid")
        with open(os.path.join(directory, name), "w") as f:
            json.dump(sample, f)


def main():
    try:
        sys.stdout.reconfigure(errors="backslashreplace")
    except AttributeError:
        pass

    program, *rest = sys.argv
    if not rest:
        print(f"Usage: {program} COMMAND OPTIONS...")
        print("Available commands:")
        for name, text in _help.items():
            print(f"  {name:<14}  {text}")
        sys.exit(1)

    name, *arguments = rest
    try:
        run = commands[name]
    except KeyError:
        print(f"Unknown command '{name}', must be one of {', '.join(commands)}")
        sys.exit(1)
    run(arguments)


if __name__ == "__main__":
    main()
