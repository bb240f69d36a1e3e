target_link_libraries(pbt-C27 PRIVATE bnl-quic ngtcp2 ssl)
