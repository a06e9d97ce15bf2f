def main():
    import pgp  # noqa
    from vlib import ref
    assert ref.crc24(b'') == 0xb704ce
    print('ok')
    return 0
