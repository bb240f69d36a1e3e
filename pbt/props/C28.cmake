target_link_libraries(pbt-C28 PRIVATE bnl-quic ngtcp2 ssl)
