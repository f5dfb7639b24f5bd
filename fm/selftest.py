"""setup_cmd: checks that the framework and the code under test can be used (builds nothing)."""
import sys

from . import env, problems  # noqa: F401


def main():
    from .checks import CHECKS

    worst = problems.self_test()  # raises if a derivative is wrong
    print(f'derivatives of the problem families: largest relative error {worst:.1e}')
    print(f'{len(CHECKS)} checks, {len(problems.ALL)} problem families')
    return 0


if __name__ == '__main__':
    sys.exit(main())
